#!/usr/bin/env python3
"""Drives the repository's Python tools in generated projects and compares what they do with independent models.
h.py MODE SEED SECONDS; PYT_REPO and PYT_SCRATCH name the tree under test and a directory to work in."""
import sys, os, json, time, random, shutil, signal, runpy, io, contextlib, re, traceback, subprocess, ast, types, hashlib, warnings, bisect, math, collections
warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
MODE, SEED, SECS = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
REPO, SCR = os.environ["PYT_REPO"], os.environ["PYT_SCRATCH"]
R = random.Random(SEED * 7919 + 13)
ROOT = os.path.join(SCR, f"{MODE}-{SEED}")
TOOLS = os.path.join(ROOT, "tools")
evals, events, seen, viol = 0, {}, set(), []
def ev(k, n=1): events[k] = events.get(k, 0) + n
class Bad(Exception): pass
def bad(m):
    viol.append(m); raise Bad(m)
def ck(c, m):
    global evals
    evals += 1
    if not c: bad(m() if callable(m) else m)
class Hang(Exception): pass
def _alarm(*a): raise Hang()
signal.signal(signal.SIGALRM, _alarm)
class limit:
    """Code under test: a hang is a violation; what it raises is reported as the second result."""
    def __init__(self, s=60): self.s = s
    def __enter__(self): signal.alarm(self.s)
    def __exit__(self, t, v, tb):
        signal.alarm(0)
        if t is Hang: bad("the tool does not finish")
def call(f, *a, secs=60, **k):
    """(value, exception, stdout)"""
    out = io.StringIO()
    try:
        with limit(secs), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            return f(*a, **k), None, out.getvalue()
    except Bad: raise
    except SystemExit as e:
        return None, (e if e.code not in (0, None) else None), out.getvalue()
    except Exception as e:
        return None, e, out.getvalue()
def script(rel, *args, name="__main__"):
    """Runs a tool like `python3 tools/REL ARGS` from the project root. (globals, exception, stdout)"""
    old = sys.argv
    sys.argv = [os.path.join(TOOLS, rel)] + list(args)
    os.chdir(ROOT)
    try:
        return call(runpy.run_path, os.path.join(TOOLS, rel), run_name=name)
    finally:
        sys.argv = old
def err(e):
    return "" if e is None else "".join(traceback.format_exception_only(type(e), e)).strip()[:200]
def write(rel, text):
    p = os.path.join(ROOT, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f: f.write(text)
def read(rel):
    with open(os.path.join(ROOT, rel)) as f: return f.read()
def clear():
    os.chdir(ROOT)
    for e in os.listdir(ROOT):
        if e not in ("tools", "bin", ".dafny"):
            p = os.path.join(ROOT, e)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    os.makedirs("build")

# ---------------------------------------------------------------- generated projects
WORDS = ["Node", "Cache", "Pivot", "Journal", "Map", "Impl", "Main", "Sets", "Lib", "Disk", "Op", "Inv", "Crash", "Bundle", "Sync"]
DIRS = ["Impl", "lib", "lib/Base", "lib/Data-Structs", "BlockCache", "Betree/x", "Versions_2"]
class Proj:
    def __init__(self, n=None, cyc=0.0, bads=(), rootlevel=True, assumes=0.15, dots=0.0, dirs=DIRS):
        n = n or R.randint(2, 14)
        self.files, names = [], set()
        for i in range(n):
            while True:
                d = R.choice(dirs + ([""] if rootlevel else []))
                f = (d + "/" if d else "") + R.choice(WORDS) + R.choice(WORDS) + R.choice(["", str(i)]) + (R.choice([".s.Old", ".i.Old", ".s", "_s", ".x"]) if R.random() < dots else "") + ("%s.dfy" % R.choice([".i", ".i", ".i", ".s"]))
                if f.lower() not in names: break
            names.add(f.lower())
            self.files.append(f)
        self.files.sort(key=lambda f: f.endswith(".s.dfy"))     # trusted files last, so that any file may include later ones
        self.inc = {f: [] for f in self.files}
        dens = R.choice([0.1, 0.3, 0.6])
        for i, f in enumerate(self.files):
            for g in self.files[i + 1:]:
                if R.random() < dens or (g == self.files[i + 1] and R.random() < 0.6 and not f.endswith(".s.dfy")):
                    if not (f.endswith(".s.dfy") and g.endswith(".i.dfy")): self.inc[f].append(g)
            R.shuffle(self.inc[f])
        if R.random() < cyc:
            for _ in range(R.randint(1, 3)):
                a, b = R.choice(self.files), R.choice(self.files)
                if not (a.endswith(".s.dfy") and b.endswith(".i.dfy")): self.inc[a].append(b)
        self.offence, self.offender = None, None
        if bads:
            self.offence, self.offender = R.choice(list(bads)), R.choice(self.files)
            if self.offence == "trust":
                c = [f for f in self.files if f.endswith(".s.dfy")]; t = [f for f in self.files if f.endswith(".i.dfy")]
                if not c or not t: self.offence = "missing"
                else:
                    self.offender = R.choice(c); self.target = R.choice(t)
            if self.offence == "missing": self.target = R.choice(["lib/Nowhere.s.dfy", "Gone.s.dfy"])
            elif self.offence == "undeclared":
                self.target = R.choice(["lib/Plain.dfy", "Impl/Plain.dfy", "lib/Plain.t.dfy"])
                write(self.target, "module Plain {}\n")
        self.assume = set()
        self.lineno = {}
        for f in self.files:
            write(f, self.text(f, assumes))
        self.root = self.files[0]
    def rel(self, f, g):
        d = os.path.dirname(f)
        r = os.path.relpath(g, d or ".")
        k = R.random()
        if k < 0.2: r = "./" + r
        elif k < 0.3 and d: r = "../" + os.path.basename(d) + "/" + r
        return r
    def text(self, f, assumes):
        L = []
        incs = list(self.inc[f])
        if incs and R.random() < 0.2: incs.append(R.choice(incs))       # included twice
        out = ["// Copyright", ""] if R.random() < 0.5 else []
        for g in incs:
            if R.random() < 0.2: out.append(R.choice(["", "// include", '// include "Gone.i.dfy"', '//include "../lib/Gone.s.dfy"', "/* note */"]))
            self.lineno.setdefault(f, []).append((len(out) + 1, g))
            out.append('include "%s"%s' % (self.rel(f, g), R.choice(["", "", "  // needed", " "])))
        if f == self.offender:
            at = R.randint(0, len(out))
            self.lineno[f] = [(l + (1 if l > at else 0), g) for l, g in self.lineno.get(f, [])]
            out.insert(at, 'include "%s"' % os.path.relpath(self.target, os.path.dirname(f) or "."))
        body = ["", "module M_%d {" % R.randint(0, 99), "  lemma L()", "  ensures true", "  {", "  }", "  method m() returns (x: int)", "  {", "    x := 1;", "  }", "}"]
        if R.random() < assumes:
            body.insert(R.randint(8, 9), R.choice(["    assume false;", "    assume x > 0; // sound", "    if x == 1 { assume x < 9; }", "\tassume {:axiom} false;", "    x := 2; assume x == 2;"]))
            self.assume.add(f)
        if R.random() < 0.2: body.insert(R.randint(1, 9), R.choice(["  // we could assume false here", "    x := 1; // assume x == 1;", "    //assume false;"]))
        return "\n".join(out + body) + "\n"
    def closure(self, roots):
        st, seen_ = list(roots), set()
        while st:
            f = st.pop()
            if f in seen_: continue
            seen_.add(f); st += self.inc.get(f, [])
        return seen_
    def cyclic(self, fs):
        done, path = set(), set()
        def go(f):
            if f in done: return False
            if f in path: return True
            path.add(f)
            r = any(go(g) for g in self.inc[f] if g != f)
            path.discard(f); done.add(f)
            return r
        return any(go(f) for f in fs)
    def sig(self): return hashlib.md5(json.dumps(self.inc, sort_keys=True).encode()).hexdigest()

# ---------------------------------------------------------------- P01 verdicts
KINDS = {"parse": "parse error", "type": "type error", "error": "verification error", "assume": "untrusted file contains assumptions",
         "timeout": "verification timeout", "rlimit": "exceeded rlimit"}
LEVEL = {"parse": 0, "type": 1, "error": 2, "assume": 3, "timeout": 4, "rlimit": 4, "dynamic": 5, "ok": 6, "syn": 7}
def pl(n, s): return "%d %s%s" % (n, s, "" if n == 1 or s == "inconclusive" or s == "out of resource" else "s")
def report(p, f, mode, pbad):
    """(kind, text, seconds) of a generated verifier report."""
    t = R.choice([None, round(R.uniform(0, 9), 2), round(R.uniform(0, 400), 2)])
    out = []
    if R.random() < 0.3: out.append("%s(%d,2): Warning: /!\\ No terms found to trigger on." % (f, R.randint(1, 99)))
    kind = "ok"
    nv = R.choice([0, 1, 7, 10, 120])
    if mode == "synchk":
        k = R.random()
        if k < pbad: kind = R.choice(["parse", "type"])
        elif R.random() < 0.4: out += ["Dafny program verifier finished with 0 verified, 0 errors"]; kind = "ok"
        else: out += ["Dafny program verifier did not attempt verification"]; kind = "syn"
    elif R.random() < pbad:
        kind = R.choice(["parse", "type", "error", "error", "error", "timeout", "rlimit"])
    if kind == "parse": out += ["%s(3,1): Error: invalid UnaryExpression" % f, "%d parse errors detected in %s" % (R.randint(1, 12), os.path.basename(f))]
    elif kind == "type": out += ["%s(3,1): Error: unresolved identifier: x" % f, "%d resolution/type errors detected in %s" % (R.randint(1, 12), os.path.basename(f))]
    elif mode == "verchk":
        e = t_ = i = r = 0
        big = R.choice([1, 2, 10, 31, 100, 250])
        if kind == "error":
            e = big; t_ = R.choice([0, 0, 3]); i = R.choice([0, 0, 1]); r = R.choice([0, 0, 2])
            out += ["%s(%d,4): Error: A postcondition might not hold on this return path." % (f, R.randint(1, 500)), "Execution trace:", "    (0,0): anon0"]
        elif kind == "timeout": t_ = big; r = R.choice([0, 0, 1])
        elif kind == "rlimit": i, r = R.choice([(big, 0), (0, big), (1, big)])
        s = "Dafny program verifier finished with %d verified, %s" % (nv, pl(e, "error"))
        zeros = R.random() < 0.3
        for n, w in ((t_, "time out"), (i, "inconclusive"), (r, "out of resource")):
            if n or zeros: s += ", " + pl(n, w)
        out.append(s)
    if kind in ("ok", "syn") and f in p.assume and f.endswith(".i.dfy"): kind = "assume"
    if t is not None: out.append("%.2fuser 0.10system 0:01.33elapsed 99%%CPU (0avgtext+0avgdata 1maxresident)k" % t)
    return kind, "\n".join(out) + "\n", t
def reports(p, mode, files, pbad):
    res = {}
    for f in files:
        res[f] = report(p, f, mode, pbad)
        write("build/" + f.replace(".dfy", "." + mode), res[f][1])
    return res
def frames(p, mode, res):
    """Some files of a syntax check use dynamic frames."""
    for f in p.files:
        if mode == "synchk" and R.random() < 0.2:
            write(f, read(f) + R.choice(["  modifies this\n", "  reads s\n"]))
            if res[f][0] == "syn": res[f] = ("dynamic",) + res[f][1:]
FULL = dict(KINDS, dynamic="dynamic frames", ok="verified successfully", syn="syntax ok")
def p01():
    clear()
    mode = R.choice(["verchk", "verchk", "synchk"])
    p = Proj(assumes=R.choice([0, 0.15]))
    pbad = R.choice([0, 0, 0, 0.1, 0.5])
    res = reports(p, mode, p.files, pbad)
    frames(p, mode, res)
    cl = sorted(p.closure([p.root]))
    broken = None
    if mode == "verchk" and R.random() < 0.12:
        broken = R.choice(cl)
        b = "build/" + broken.replace(".dfy", ".verchk")
        k = R.random()
        if k < 0.3: os.remove(b)
        else: write(b, R.choice(["", "Unhandled Exception:\nSystem.OutOfMemoryException\n", "Killed\n3.20user 0.1system\n", "Prover error: Model parsing error\n"]))
    seen.add(p.sig() + mode + str(sorted((f, r[0]) for f, r in res.items())))
    g, e, o = script("aggregate-verchk.py", "--" + mode, "--root", "build/" + p.root.replace(".dfy", "." + mode), "--summary", "build/out.verified", "--error", "build/out.err")
    S = read("build/out.verified") if os.path.exists("build/out.verified") else None
    if broken and (res[broken][0] != "assume" or not os.path.exists(b)):
        ev("report missing or cut short")
        ck(S is None or not S.startswith("Overall: Success"), lambda: f"the verdict is success although the report of {broken} is missing or cut short")
        return
    if broken: return
    ck(e is None, lambda: f"the aggregation failed: {err(e)}")
    ck(S is not None, "no summary was written")
    fails = {f: res[f][0] for f in cl if res[f][0] in KINDS}
    ck(S.split("\n")[0] == ("Overall: Fail" if fails else "Overall: Success"), lambda: f"verdict {S.splitlines()[:1]} while the failing files are {fails} ({mode})")
    ev("failing verdicts" if fails else "successful verdicts")
    if fails and len(fails) == 1: ev("a single failing file")
    sec, cat, slow = {}, None, None
    for l in S.split("\n")[1:]:
        m = re.match("Files failing with (.*)$", l)
        if m: cat = m.group(1)
        elif l.startswith("Total build time"): cat = None; total = int(re.search(r"(\d+) seconds", l).group(1))
        elif l.startswith("Slowest files"): cat, slow = None, []
        elif l.startswith("\t") and slow is not None: slow.append(l.strip().split("\t"))
        elif l.startswith("\t"): sec.setdefault(cat, []).append(l.strip())
    got = {}
    for k, fs in sec.items():
        ck(fs == sorted(fs), "failing files are not listed in order")
        for f in fs:
            n = os.path.normpath(f)
            ck(n not in got, lambda: f"{f} is listed twice")
            got[n] = k
    ck(set(got) == set(fails), lambda: f"files listed as failing: {sorted(got)}, failing: {sorted(fails)}")
    for f, k in got.items():
        w = fails[f]
        ok = k == KINDS[w] or (w in ("timeout", "rlimit") and k in (KINDS["timeout"], KINDS["rlimit"]))
        ck(ok, lambda: f"{f} is listed under '{k}' but failed with '{KINDS[w]}'")
        ev("failures: " + w)
    times = [(res[f][2], f) for f in cl if res[f][2] is not None]
    tot = sum(t for t, _ in times)
    ck(abs(total - int(tot)) <= (1 if abs(tot - round(tot)) < 1e-6 else 0), lambda: f"total time {total} instead of {tot}")
    ck(slow is not None and [float(s[0]) for s in slow] == sorted((t for t, _ in times), reverse=True)[:10], lambda: f"slowest files {slow} of {times}")
    ck(all((float(s[0]), os.path.normpath(s[1])) in times for s in slow), "a slowest file has another file's time")
    E = read("build/out.err")
    blocks, cur = {}, None
    for l in E.split("\n"):
        if l and not l.startswith("\t"): cur = os.path.normpath(l); blocks.setdefault(cur, [])
        elif l.startswith("\t"): blocks[cur].append(l[1:])
    ck(set(blocks) == set(fails), lambda: f"error details for {sorted(blocks)}, failing {sorted(fails)}")
    for f in blocks: ck(blocks[f] == res[f][1].splitlines(), lambda: f"the error details of {f} are not its report")
    if g and "create_report" in g and R.random() < 0.3:
        v = ["build/" + f.replace(".dfy", "." + mode) for f in cl]
        R.shuffle(v)
        _, e, o = call(g["create_report"], mode, v)
        ck(e is None, lambda: f"the report failed: {err(e)}")
        j = json.loads(o)
        ck(j["is_success"] == (not fails) and j["worst"]["level"] == min(LEVEL[res[f][0]] for f in cl), lambda: f"report says success={j['is_success']} worst={j['worst']} for {[res[f][0] for f in cl]}")
        ck(sorted(s["file"] for s in j["summaries"]) == sorted(v), "the report does not list every file once")
        for x in j["summaries"]:
            w = res[x["file"][6:].replace("." + mode, ".dfy")][0]
            ck(x["result"] == FULL[w] and bool(x["is_success"]) == (w not in KINDS), lambda: f"report of {x['file']}: {x}, its outcome is {w}")
        ev("reports of all files")
    # what is published about the commit
    first = S.split("\n")[0]
    k = R.random()
    want = "failure" if fails else "success"
    if k < 0.2: S, want = R.choice([("", "neutral"), ("Overall: Maybe\n" + S, "neutral"), ("\n" + S, "neutral"), (S.replace("Overall: ", "Overall:", 1), "neutral"), ("x" + S, "neutral")])
    write("build/Impl/Bundle.i.verified", S)
    import github
    del github.runs[:]
    os.environ.update(GITHUB_TOKEN="t", GITHUB_SHA="abc", GITHUB_REPOSITORY="o/r")
    g, e, o = script("verichecks/report-result.py")
    ck(e is None and len(github.runs) == 1, lambda: f"publishing the result failed: {err(e)} {len(github.runs)}")
    con = github.runs[0][1].get("conclusion")
    ck(con == want, lambda: f"published '{con}' for a summary starting with {S.splitlines()[:2]}")
    ck(S.strip() in github.runs[0][1]["output"]["summary"] and github.runs[0][1].get("head_sha") == "abc", "the published summary is not the summary of this commit")
    ev("published: " + con)

# ---------------------------------------------------------------- P02 dependencies
SUF = [".dummydep", ".synchk", ".verchk", ".cs", ".lc"]
def p02():
    clear()
    import lib_deps
    k = R.random()
    bads = ("trust", "missing", "undeclared") if k < 0.3 else ()
    odd = R.random() < 0.3
    p = Proj(cyc=0.15, bads=bads, n=R.choice([None, None, 2, 25]), dots=0.4 if odd else 0, dirs=DIRS + ["lib/x.s.d", "v1.i.old"] if odd else DIRS)
    seen.add(p.sig() + str(p.offence))
    roots = [p.root] + ([R.choice(p.files)] if R.random() < 0.4 else [])
    cl = p.closure(roots)
    hit = p.offence if p.offender in cl else None
    def iref(f): return lib_deps.IncludeReference(None, 0, f)
    v, e, o = call(lib_deps.depsFromDfySources, list(roots))
    if hit:
        ck(e is not None, lambda: f"a project whose {p.offender} includes {p.target} ({hit}) was accepted")
        msg = str(e)
        ck(all(os.path.basename(x) in msg for x in ((p.target, p.offender) if hit == "trust" else (p.target,))), lambda: f"refusal ({hit}) without naming the file: {err(e)}")
        ev("refused: " + hit)
        g, e, o = script("veridepend.py", *roots)
        ck(e is not None, lambda: f"dependencies were generated although {p.offender} includes {p.target} ({hit})")
        ck(not os.path.exists("build/deps") or read("build/deps") == "", "a refused project left dependencies behind")
        return
    ck(e is None, lambda: f"dependencies of a sound project were refused: {err(e)}")
    names = [x.normPath for x in v]
    ck(len(names) == len(set(names)), lambda: f"a dependency is listed twice: {sorted(names)}")
    ck(set(names) == cl, lambda: f"dependencies of {roots}: {sorted(names)}, should be {sorted(cl)}")
    v1, e, o = call(lib_deps.depsFromDfySource, iref(p.root))
    ck(e is None and sorted(x.normPath for x in v1) == sorted(p.closure([p.root]) - {p.root}), lambda: f"dependencies of {p.root}: {err(e)} {sorted(x.normPath for x in v1 or [])}, should be {sorted(p.closure([p.root]) - {p.root})}")
    ev("dependency closures"); ev("files in closures", len(cl))
    for f in R.sample(sorted(cl), min(4, len(cl))):
        v2, e, o = call(lib_deps.childrenForIref, iref(f))
        want = [(l, x) for l, x in p.lineno.get(f, [])]
        ck(e is None and [(x.line_num, x.normPath) for x in v2] == want, lambda: f"includes of {f}: {[(x.line_num, x.normPath) for x in v2 or []]}, should be {want} {err(e)}")
        ck(all(x.isTrusted() == x.normPath.endswith(".s.dfy") and x.origin.normPath == f for x in v2), "an include is attributed or classified wrongly")
    cyc = p.cyclic(cl)
    v3, e, o = call(lib_deps.toposortGroup, v)
    if cyc:
        ck(e is not None, "a cyclic include graph was put in order")
        ev("cyclic projects")
        g, e, o = script("veridepend.py", *roots)
        ck(e is not None, "dependencies were generated for a cyclic include graph")
        return
    order = [x.normPath for x in v3 or []]
    ck(e is None and sorted(order) == sorted(cl), lambda: f"ordering lost or repeated files: {order} {err(e)}")
    pos = {f: i for i, f in enumerate(order)}
    ck(all(pos[h] < pos[f] for f in cl for h in p.inc[f] if h != f), lambda: f"order {order} does not respect the includes")
    ev("orderings")
    g, e, o = script("veridepend.py", *roots)
    ck(e is None and os.path.exists("build/deps"), lambda: f"no dependency file was written: {err(e)}")
    G = {}
    for l in read("build/deps").splitlines():
        l = l.split("#")[0].strip()
        if not l: continue
        a, b = l.split(":")
        for t in a.split(): G.setdefault(t, set()).update(b.split())
    def reach(t):
        st, s = [t], set()
        while st:
            x = st.pop()
            for y in G.get(x, ()):
                if y not in s: s.add(y); st.append(y)
        return s
    def tn(f, s): return "build/" + f[:-4] + s
    for f in (cl if len(cl) < 10 else R.sample(sorted(cl), 10)):
        up = p.closure(p.inc[f])
        for s in SUF:
            r = reach(tn(f, s))
            ck({x for x in r if x.endswith(".dummydep")} == {tn(h, ".dummydep") for h in up}, lambda: f"{tn(f, s)} is rebuilt for changes of {sorted(x for x in r if x.endswith('.dummydep'))}, should be {sorted(up)}")
        for s, t in ((".verified", ".verchk"), (".syntax", ".synchk"), (".lcreport", ".lc")):
            r = reach(tn(f, s))
            ck({x for x in r if x.endswith(t)} == {tn(h, t) for h in up} and {x for x in r if x.endswith(s)} == {tn(h, s) for h in up}, lambda: f"{tn(f, s)} needs {sorted(r)}, should need {t} of {sorted(up)}")
        for s in (".cpp", ".o", ".okay"):
            r = reach(tn(f, s))
            ck({x for x in r if x.endswith(s)} >= {tn(h, s) for h in up}, lambda: f"{tn(f, s)} does not wait for {sorted(up)}")
        ck(f in G.get("build/deps", ()), lambda: f"the dependency file is not rebuilt when {f} changes")
        ev("rebuild rules judged")
    ck(not any(re.search(r"(Gone|Nowhere)", x) for x in G), "a commented-out include became a dependency")

# ---------------------------------------------------------------- P03 graph and report
def p03():
    clear()
    mode = R.choice(["verchk", "synchk"])
    p = Proj(rootlevel=False, cyc=0.1)
    res = reports(p, mode, p.files, R.choice([0, 0.2, 0.6]))
    frames(p, mode, res)
    cl = p.closure([p.root])
    seen.add(p.sig() + str(sorted((f, r[0]) for f, r in res.items())))
    full = FULL
    g, e, o = script("dep-graph.py", mode, p.root, "build/g.dot")
    ck(e is None, lambda: f"drawing the graph failed: {err(e)}")
    D = read("build/g.dot")
    edges = set(re.findall(r'^"([^"]+)" -> "([^"]+)";$', D, re.M))
    fe = {x for x in edges if x[0].endswith(".dfy") or x[1].endswith(".dfy")}
    want = {(f, h) for f in cl for h in p.inc[f]}
    ck(fe == want, lambda: f"drawn includes {sorted(fe ^ want)} differ from the project's")
    nodes = re.findall(r'^"([^"]+)" \[style=filled; ([^"]*?(?:"[^"]*"[^"]*?)*); label="([^"]*)"', D, re.M)
    legend = {n: s for n, s, l in nodes if not n.endswith(".dfy")}
    fn = [(n, s, l) for n, s, l in nodes if n.endswith(".dfy")]
    ck(sorted(n for n, s, l in fn) == sorted(cl), lambda: f"drawn files {sorted(n for n, s, l in fn)}, should be {sorted(cl)}")
    for n, s, l in fn:
        k = full[res[n][0]]
        k = k if k in legend else full["syn"]
        ck(s == legend[k], lambda: f"{n} is drawn as '{s}' but its result is '{k}', drawn as '{legend[k]}' in the legend")
        ck(l.split("\n")[0] == os.path.basename(n), lambda: f"{n} is labelled {l!r}")
        ck(l.split("\n")[1].rstrip("s") == str(res[n][2]), lambda: f"{n} is labelled with time {l!r}, took {res[n][2]}")
        ev("files drawn: " + res[n][0])
    cls = re.findall(r'subgraph cluster_\S+ \{\n\s*label="([^"]+)"(.*?)\n\}', D, re.S)
    mem = [(q, n) for q, body in cls for n in re.findall(r'^\s+"([^"]+\.dfy)";$', body, re.M)]
    ck(sorted(mem) == sorted((os.path.dirname(f), f) for f in cl), "the clusters are not the directories of the files")
    os.environ["LC_ALL"] = "C"
    if R.random() < 0.03:
        pr = subprocess.run(["dot", "-Tplain", "build/g.dot"], capture_output=True, text=True) if shutil.which("dot") else None
        if pr is not None:
            ck(pr.returncode == 0, "the graph cannot be read by graphviz"); ev("graphs laid out")
    g, e, o = script("gen-build-report.py", mode, p.root, "build/r.txt")
    ck(e is None, lambda: f"the build report failed: {err(e)}")
    T = read("build/r.txt")
    fails = {f: full[res[f][0]] for f in cl if res[f][0] in KINDS}
    got, cat = {}, None
    for l in T.splitlines():
        if l.startswith("  "):
            ck(l.strip() not in got, lambda: f"{l.strip()} is listed twice"); got[l.strip()] = cat
        elif l.endswith(":"): cat = l[:-1]
    ck(got == fails, lambda: f"the report lists {got}, failing are {fails}")
    ck(("No errors!" in T) == (not fails), "the report's 'no errors' is wrong")
    ev("reports with failures" if fails else "clean reports")

# ---------------------------------------------------------------- P04 line counts
def cruft(): return R.choice(["  import opened Foo", "import Bar", "  export Spec provides *", "    provides x, y", "  reveals z", "", "   ", "\t"])
def printed(n):
    """Text of a verifier's pretty-printer with n lines that count."""
    L = []
    for i in range(n):
        L.append(R.choice(["  var x := %d;", "module M%d {", "  } // end %d", "  lemma L%d()", "    ensures f(%d)", "  predicate exports(%d)", "    x := importance(%d);", "  provider(%d);", "  exporter(%d);", "provides_%d();", "  importOnce(%d);", "    revealsAll(%d);"]) % i)
        if R.random() < 0.2: L[-1] += " /* inline */"
        while R.random() < 0.3: L.append(cruft())
        if R.random() < 0.15: L.append(R.choice(["  /*** (0,0): Warning: a /* nested */ note */", "/* a\n b\n c */", "/*{:x /*_*/ y /*z*/}*/", "  /*-- one\n two /* three\n*/ four\n--*/"]))
        if R.random() < 0.05: L.append(R.choice(["f.dfy(3,4): Warning: /!\\ No terms found to trigger on.", "Warning: the type of the other operand is a non-null type"]))
    if R.random() < 0.5: L.append("Dafny program verifier finished with %d verified, 0 errors" % n)
    return "\n".join(L) + R.choice(["", "\n", "\n\n"])
CATS = None
ROWS = {"map3statestemplatemap": "map", "abstractbeptree": "abstractbetree", "beptree": "betree", "compositeviewmap": "compositeviewmap", "beptreeiosystem": "betreejournaliosystem", "concreteiosystem": "concreteiosystem", "implementationcode": "impl", "libraries": "lib"}
def p04():
    clear()
    import lib_deps
    global CATS
    CATS = list(ROWS.values())
    p = Proj(n=R.randint(max(3, 0), 9), assumes=0)
    seen.add(p.sig())
    for m in ("line_count_lib", "line_counter_report_lib"): sys.modules.pop(m, None)
    want = {}
    for f in p.files:
        a = R.randint(0, 30); b = R.randint(0, a)
        write(f + ".ghost", printed(a)); write(f + ".real", printed(b))
        want[f] = {"spec": a, "impl": 0, "proof": 0} if f.endswith(".s.dfy") else {"spec": 0, "impl": b, "proof": a - b}
    cl = sorted(p.closure([p.root]))
    some = set(R.sample(cl, min(2, len(cl))))
    for f in cl:
        out = "build/" + f.replace(".dfy", ".lc")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if f in some:
            g, e, o = script("line_counter.py", "--mode", "count", "--input", f, "--output", out)
            ck(e is None, lambda: f"counting failed: {err(e)}")
            got = json.loads(read(out))
            ck(got == want[f], lambda: f"lines of {f}: {got}, should be {want[f]}")
            ev("files counted"); ev("trusted files counted" if f.endswith(".s.dfy") else "other files counted")
        else: write(out, json.dumps(want[f]) + "\n")
    # pieces of the counter on their own
    import line_count_lib
    c = line_count_lib.Counter(".")
    for _ in range(5):
        n = R.randint(0, 40)
        t = printed(n)
        t2, e, o = call(lambda: c.remove_whitespace(c.remove_cruft(c.remove_paired_comments(c.remove_warnings(t)))))
        ck(e is None and len([l for l in t2.split("\n") if l.strip()]) == n, lambda: f"{n} lines of code, {len([l for l in t2.split(chr(10)) if l.strip()])} counted in {t!r}")
        ev("texts filtered")
    # every category must occur
    cat = {f: R.choice(CATS) for f in cl if R.random() < 0.9}
    for i, k in enumerate(CATS):
        if k not in cat.values():
            x = "zz/%s%d.s.dfy" % (k, i); p.inc[p.root].append(x); p.files.append(x)
            write(x, "module X {}\n"); write(p.root, 'include "%s"\n' % os.path.relpath(x, os.path.dirname(p.root) or ".") + read(p.root))
            want[x] = {"spec": R.randint(0, 9), "impl": 0, "proof": 0}; cat[x] = k
            write("build/" + x.replace(".dfy", ".lc"), json.dumps(want[x]))
    if p.root.endswith(".s.dfy") is False or all(x.endswith(".s.dfy") for x in p.closure([p.root])):
        cl = sorted(p.closure([p.root]))
        write("docs/file-classifications.txt", "".join("%s %s%s\n" % (k, R.choice(["./", ""]), f) for f, k in sorted(cat.items(), key=lambda _: R.random())) + "lib ./Not/There.i.dfy\n")
        sys.modules.pop("line_counter_report_lib", None)
        g, e, o = script("line_counter.py", "--mode", "report", "--input", p.root, "--output", "build/out.lcreport")
        ck(e is None, lambda: f"the line report failed: {err(e)}")
        T = read("build/out.lcreport")
        rows = {}
        for l in T.splitlines():
            m = re.match(r"^%\s+(\S+)\s+(\d+|None|spec)\s+(\d+|impl)\s+(\d+|proof)\s*$", l)
            if m and m.group(2) != "spec":
                ck(m.group(1) not in rows, "a row appears twice"); rows[m.group(1)] = tuple(int(x) for x in m.groups()[1:])
        def tot(fs): return tuple(sum(want[f][k] for f in fs) for k in ("spec", "impl", "proof"))
        exp = {"AllMapper-all": tot(cl)}
        for f in cl:
            exp.setdefault("ManualMapper-" + cat.get(f, "unmapped"), [])
            d = os.path.dirname(f)
            if d == "Impl": d = "Impl-Model" if f.split(".")[0].endswith("Model") else "Impl-Impl" if f.split(".")[0].endswith("Impl") else "Impl-Misc"
            exp.setdefault("DirMapper-" + d, [])
            exp["ManualMapper-" + cat.get(f, "unmapped")].append(f); exp["DirMapper-" + d].append(f)
        exp = {k: (v if isinstance(v, tuple) else tot(v)) for k, v in exp.items()}
        ck(rows == exp, lambda: f"line totals {sorted((k, rows.get(k), exp.get(k)) for k in set(rows) | set(exp) if rows.get(k) != exp.get(k))[:6]} (row, reported, should be)")
        tex = re.findall(r"^(.*?) & (\d+) & (\d+) & (\d+) \\\\$", T, re.M)
        tt = [tuple(map(int, x[1:])) for x in tex]
        got = {ROWS.get(re.sub(r"[^a-z0-9]", "", x[0].lower()), x[0]): t for x, t in zip(tex, tt)}
        ck(len(tt) == len(got) and got == dict({k: exp["ManualMapper-" + k] for k in CATS}, total=exp["AllMapper-all"]), lambda: f"the table shows {tex}")
        ev("line reports")

# ---------------------------------------------------------------- P05 rewriting tools
def exec_defs(rel):
    """Loads a script without running its top-level commands."""
    src = open(os.path.join(TOOLS, rel)).read()
    t = ast.parse(src)
    t.body = [s for s in t.body if not isinstance(s, ast.Expr) or isinstance(s.value, ast.Constant)]
    m = types.ModuleType("tool"); m.__file__ = os.path.join(TOOLS, rel)
    exec(compile(t, rel, "exec"), m.__dict__)
    return m
def git(*a): return subprocess.run(("git", "-c", "user.name=x", "-c", "user.email=x@y", "-c", "init.defaultBranch=m", "-c", "core.hooksPath=/dev/null") + a, cwd=ROOT, capture_output=True, text=True)
def resolved(f): return sorted(os.path.normpath(os.path.join(os.path.dirname(f), m)) for m in re.findall(r'^include "(.*?)"', read(f), re.M))
def p05_move():
    clear()
    p = Proj(n=R.randint(3, 9), assumes=0, dots=R.choice([0, 0, 0.3]), dirs=R.choice([DIRS, DIRS + ["lib/build", "Impl/build/x", "builder", "lib/.hid"]]))
    p.rel = lambda f, g: os.path.relpath(g, os.path.dirname(f) or ".")
    for f in p.files: write(f, p.text(f, 0))
    base = [os.path.basename(f) for f in p.files]
    leaf = [f for f in p.files if not p.inc[f] and base.count(os.path.basename(f)) == 1]
    if not leaf: return
    os.environ.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", GIT_CEILING_DIRECTORIES=SCR)
    with open(".gitignore", "w") as fp: fp.write("/tools\n/build\n/bin\n/.dafny\n__pycache__\n")
    ck(git("init", "-q", ".").returncode == 0 and git("add", "-A").returncode == 0 and git("commit", "-qm", "x").returncode == 0, "git")
    before = {f: read(f) for f in p.files}
    inc = {f: resolved(f) for f in p.files}
    seen.add(p.sig() + "mv")
    m, e, o = call(exec_defs, "renaminator.py")
    ck(e is None, lambda: f"loading the tool failed: {err(e)}")
    mv = {}
    if R.random() < 0.6:
        k = R.sample(leaf, min(len(leaf), R.randint(1, 2)))
        dest = R.choice(["lib/New", "Impl", "lib/Base", "Fresh"])
        if any(os.path.exists(os.path.join(dest, os.path.basename(f))) for f in k): return
        os.makedirs("lib", exist_ok=True)
        for f in k: mv[f] = os.path.join(dest, os.path.basename(f))
        _, e, o = call(m.moveinto, dest, R.choice([" ", "\n"]).join(os.path.basename(f) for f in k))
        ev("files moved", len(k))
    else:
        f = R.choice(leaf)
        nn = "Renamed%d%s" % (R.randint(0, 99), f[-6:])
        mv[f] = os.path.join(os.path.dirname(f), nn)
        _, e, o = call(m.rename, os.path.basename(f), nn)
        ev("files renamed")
    ck(e is None, lambda: f"planning the move failed: {err(e)}")
    fd = os.dup(1); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); fe2 = os.dup(2); os.dup2(dn, 2)
    try: _, e, o = call(m.renaminator.enact)
    finally: os.dup2(fd, 1); os.close(fd); os.dup2(fe2, 2); os.close(fe2); os.close(dn)
    ck(e is None, lambda: f"moving failed: {err(e)}")
    for f in p.files:
        n = mv.get(f, f)
        ck(os.path.exists(n) and (n == f or not os.path.exists(f)), lambda: f"{f} is not at {n} afterwards")
        ck(resolved(n) == sorted(mv.get(x, x) for x in inc[f]), lambda: f"after moving {mv}, {n} includes {resolved(n)}, should include {sorted(mv.get(x, x) for x in inc[f])}")
        a, b = before[f].split("\n"), read(n).split("\n")
        ck(len(a) == len(b) and all(x == y or x.lstrip("/ ").startswith("include") for x, y in zip(a, b)), lambda: f"{n} changed beyond its include lines")
        ev("referrers judged", len(inc[f]))
    st = git("status", "--porcelain").stdout
    ck(all(l[1] == " " for l in st.splitlines()), lambda: f"the change is not fully staged: {st}")
    shutil.rmtree(".git"); os.remove(".gitignore")
HDR = re.compile(r"^// Copyright [^\n]*\n// SPDX-License-Identifier: BSD-2-Clause\n")
def body(n): return "".join(R.choice(["use std;\n", "fn main() {}\n", "\n", "// Copyright in the body\n", "  let x = 1; // note\n", "é ü\n", "\tindented\n"]) for _ in range(n))
def p05_license():
    clear()
    fs = {}
    for i in range(R.randint(1, 8)):
        b = body(R.randint(0, 12))
        while "Copyright" in "".join(b.splitlines(True)[:2]): b = body(R.randint(0, 12))
        old = R.choice([None, "// Copyright 2018-2021 Someone\n// SPDX-License-Identifier: BSD-2-Clause\n", "/* Copyright (c) X */\n\n", "cur"])
        fs["src/f%d.rs" % i] = (old, b)
    g0, e, o = script("license-update.py")
    exp = (g0 or {}).get("expected_license")
    for f, (old, b) in fs.items(): write(f, (exp if old == "cur" and exp else old if old != "cur" else "") + b if old else b)
    for rnd in range(2):
        g, e, o = script("license-update.py", *fs)
        ck(e is None, lambda: f"the licence tool failed: {err(e)}")
        for f, (old, b) in fs.items():
            t = read(f); m = HDR.match(t)
            ck(m is not None, lambda: f"no licence header at the start of {t[:200]!r}")
            ck(t[m.end():] == b, lambda: f"updating the header ({old!r}) changed the file from {b!r} to {t[m.end():]!r}")
            ev("headers: " + ("second run" if rnd else "none before" if old is None else "current before" if old == "cur" else "old before"))
    seen.add("lic" + str(sorted(fs.items())))
def p05_copy():
    clear()
    fs = {}
    for i in range(R.randint(1, 3)):
        x = R.choice(["py", "sh", "dfy", "cpp", "h", "txt"])
        t = "".join(R.choice(["x = 1\n", "\n", "foo()\n", "  \n", "end\n"]) for _ in range(R.randint(1, 9)))
        if x in ("py", "sh") and R.random() < 0.6: t = "#!/usr/bin/env %s\n" % ("python3" if x == "py" else "bash") + t
        fs["d/f%d.%s" % (i, x)] = t
        write("d/f%d.%s" % (i, x), t)
    env = dict(os.environ, TMPDIR=ROOT + "/build")
    dry = R.random() < 0.15
    def go(): return subprocess.run(["bash", TOOLS + "/copywriter.sh"] + (["-d"] if dry else []) + list(fs), cwd=ROOT, env=env, capture_output=True, text=True, timeout=60)
    go()
    mid = {f: read(f) for f in fs}
    go()
    for f, t in fs.items():
        n = mid[f]
        if f.endswith(".txt") or dry:
            ck(n == t, f"{f} was changed"); ev("left alone"); continue
        c = "#" if f[-2:] in ("py", "sh") else "//"
        L = n.split("\n")
        h = [i for i, l in enumerate(L) if l.startswith(c + " Copyright")]
        ck(len(h) == 1 and L[h[0] + 1] == c + " SPDX-License-Identifier: BSD-2-Clause", lambda: f"header missing or repeated in {n!r}")
        if t.startswith("#!"): ck(L[0] == t.split("\n")[0], lambda: f"the interpreter line is lost in {n!r}"); ev("interpreter lines kept")
        rest = "\n".join(l for i, l in enumerate(L) if i not in (h[0], h[0] + 1))
        ck(rest.replace("\n", "") == t.replace("\n", "") and n.endswith(t if not t.startswith("#!") else t.split("\n", 1)[1]), lambda: f"the notice changed {t!r} to {n!r}")
        ck(read(f) == n, f"a second run changed {f} again"); ev("notices added")
    seen.add("cp" + str(sorted(fs.items())))
def p05_export():
    clear()
    L, want = ["module M {"], set()
    for i in range(R.randint(1, 25)):
        n = R.choice(["foo", "Bar", "x_1", "Inv"]) + str(i)
        k = R.random()
        ind = R.choice(["", "  ", "\t"])
        at = R.choice(["", " {:fuel 2}", " {:opaque}", " {:autoReq false}"]) if k >= 0.3 else ""
        if k < 0.1: L.append(ind + R.choice(["datatype ", "linear datatype "]) + n + R.choice([" = A | B", "<T> = A(x: T)"])); want.add(n)
        elif k < 0.2: L.append(ind + "type " + n + R.choice([" = int", "<A>", "(==)"])); want.add(n)
        elif k < 0.3: L.append(ind + R.choice(["lemma ", "method ", "static function ", "// function ", "ensures function "]) + n + "()")
        elif k < 0.7:
            L.append(ind + "function" + R.choice(["", " method"]) + at + " " + n + R.choice(["(x: int) : int", "<A>(a: A) : A", "() : (r: nat)"]))
            if "opaque" not in at: want.add(n)
        else:
            L.append(ind + "predicate" + R.choice(["", " method"]) + at + " " + n + R.choice(["(x: int)", "<A>(a: A)"]))
            if "opaque" not in at: want.add(n)
    write("lib/X.i.dfy", "\n".join(L) + "\n}\n")
    g, e, o = script("dafny-export-set.py", "lib/X.i.dfy")
    ck(e is None, lambda: f"the export tool failed: {err(e)}")
    m = re.search(r"reveals ?(.*)", o)
    got = {x.strip() for x in m.group(1).split(",") if x.strip()} if m else None
    ck(got == want, lambda: f"exports {sorted((got or set()) ^ want)} differ from the definitions in {L}")
    ck("provides *" in o, "the export set does not provide everything")
    ev("export sets"); seen.add("ex" + str(L))
def p05_splice():
    clear()
    names = ["MaxTotalBucketWeightUint64", "MaxCacheSizeUint64", "MaxCacheSizeUint", "DiskNumJournalBlocksUint64", "NumBlocksUint64"]
    L = ["#include <x>", "namespace Bounds_Compile {"]
    vals = {n: str(R.randint(0, 1 << 40)) for n in R.sample(names, R.randint(2, 5))}
    for n in vals: L += ["", "    uint64 __default::%s()" % n, "    {", "      return (uint64)%s;" % vals[n], "    }"] + R.choice([[], ["    uint64 __default::Other()", "    {", "      return (uint64)7;", "    }"]])
    L.append("}")
    g, e, o = script("run-veri-config-experiment.py", name="tool")
    ck(e is None and g is not None, lambda: f"loading the experiment runner failed: {err(e)}")
    write("build/Bundle.cpp", "\n".join(L) + "\n")
    for _ in range(R.randint(1, 4)):
        n = R.choice(names); v = str(R.randint(0, 1 << 50))
        a = read("build/Bundle.cpp").split("\n")
        _, e, o = call(g["splice_value_into_bundle"], n, v)
        b = read("build/Bundle.cpp").split("\n")
        if n not in vals:
            ck(e is not None and a == b, lambda: f"setting the unknown constant {n} succeeded or changed the file"); ev("unknown constants"); continue
        at = a.index("    uint64 __default::%s()" % n) + 2
        ck(e is None and len(a) == len(b) and all(x == y for i, (x, y) in enumerate(zip(a, b)) if i != at), lambda: f"setting {n} changed other lines: {[(x, y) for x, y in zip(a, b) if x != y]}")
        ck(re.match(r"^\s*return \(uint64\)%s;" % v, b[at]) is not None, lambda: f"{n} set to {v} reads {b[at]!r}")
        ev("constants set")
    w, c = R.randint(1, 1 << 22), R.randint(0, 1 << 35)
    d, e, o = call(g["autoconfig"], w, c)
    d = dict(d or {})
    k = int(d["MaxCacheSizeUint64"])
    ck(d["MaxTotalBucketWeightUint64"] == str(w) and k * w <= c < (k + 1) * w, lambda: f"cache of {c} bytes with buckets of {w}: {d}")
    ev("cache sizes computed"); seen.add("sp" + str(L))
def p05():
    R.choice([p05_license, p05_export, p05_splice, p05_license, p05_export, p05_splice, p05_move, p05_copy if R.random() < 0.3 else p05_export])()

# ---------------------------------------------------------------- P06 experiments
def load(rel, name):
    sys.modules.pop(name, None)
    sys.path.insert(0, os.path.dirname(os.path.join(TOOLS, rel)))
    try:
        import importlib
        return importlib.import_module(name)
    finally: sys.path.pop(0)
def p06_suite():
    S = load("aws/suite.py", "suite")
    def variables(nv, tag=""):
        out = []
        for i in range(nv):
            vs = [S.Value("v%d%s%d" % (i, tag, j), "p%d=%d" % (i, j)) for j in range(R.choice([1, 1, 2, 3]))]
            out.append(S.Variable("var%d" % i, R.choice(["run_veri", "run_veri", "silent"]), vs))
        return out
    suites = []
    for s in range(R.choice([1, 1, 2, 3])):
        vs = [S.Variable("branch", "git_branch", [S.Value("b%d" % s, "branch-%d" % s)])] + variables(R.randint(0, 4))
        R.shuffle(vs)
        suites.append((vs, S.Suite("s%d" % s, *vs)))
    import itertools
    allv = []
    for vs, su in suites:
        want = [tuple(x.param_value for x in c) for c in itertools.product(*[v.values for v in vs])]
        got = [tuple(x.param_value for x in w.values) for w in su.variants]
        ck(sorted(got) == sorted(want), lambda: f"the suite has configurations {got}, should have {want}")
        allv += want
        for w in su.variants:
            d = {x.variable.label: x.param_value for x in w.values}
            ck(sorted(w.run_veri_params()) == sorted(x.param_value for x in w.values if x.variable.type == "run_veri"), lambda: f"{w} runs with {w.run_veri_params()}")
            ck(w.git_branch() == d["branch"], lambda: f"{w} runs branch {w.git_branch()}")
            for l in d: ck(w.value_by_name(l).param_value == d[l], lambda: f"{w}: {l} is {w.value_by_name(l).param_value}, should be {d[l]}")
        outs = [w.outfile() for w in su.variants]
        ck(len(set(outs)) == len(outs), lambda: f"two configurations share an output file: {outs}")
        ev("configurations", len(outs))
    c = S.ConcatSuite("all", *[su for _, su in suites])
    ck([tuple(x.param_value for x in w.values) for w in c.variants] == [tuple(x.param_value for x in w.values) for _, su in suites for w in su.variants], "joining suites lost or changed configurations")
    outs = [w.outfile() for w in c.variants]
    ck(len(set(outs)) == len(outs), lambda: f"two configurations of joined suites share an output file: {outs}")
    ck(all(o in c.plot_command() for o in outs), "the plot command misses a result")
    ev("joined suites"); seen.add("su" + str(sorted(allv)))
def p06_sched():
    clear()
    A = load("aws/automation.py", "automation")
    real = A.time
    A.time = types.SimpleNamespace(sleep=lambda s: real.sleep(0.002), time=real.time)
    nw, nt = R.randint(1, 5), R.randint(0, 12)
    workers = [{"Name": "w%d" % i, "PublicIpAddress": "10.0.0.%d" % i} for i in range(nw)]
    names = [w["Name"] for w in workers]
    given = {}
    noisy = {i: R.choice([0, 0, 1, 3, 200]) for i in range(nt)}
    def lam(idx, w):
        given.setdefault(idx, []).append(w["Name"])
        t = R.choice([0, 0, 0.005, 0.02])
        s = "echo S %d %s >> build/log; " % (idx, w["Name"])
        s += "i=0; while [ $i -lt %d ]; do echo out-%d-$i; i=$((i+1)); done; " % (noisy[idx], idx)
        if t: s += "sleep %s; " % t
        return A.Command("task%d" % idx, ["sh", "-c", s + "echo err-%d >&2; echo E %d %s >> build/log" % (idx, idx, w["Name"])])
    write("build/log", "")
    seq = R.random() < 0.6
    dry = R.random() < 0.1
    lf = "build/exp.log"
    if seq:
        _, e, o = call(A.sequenced_launcher, list(workers), nt, lam, dry_run=dry)
    else:
        if nt > nw:
            _, e, o = call(A.launch_worker_pipes, list(workers), nt, lam, dry_run=dry)
            ck(e is not None and not given, lambda: f"{nt} tasks were launched at once on {nw} workers"); ev("too many tasks refused")
            return
        def both(): A.monitor_worker_pipes(A.launch_worker_pipes(list(workers), nt, lam, dry_run=dry))
        _, e, o = call(both)
    ck(e is None, lambda: f"running {nt} tasks on {nw} workers failed: {err(e)}")
    ck(sorted(given) == list(range(nt)) and all(len(v) == 1 for v in given.values()), lambda: f"tasks assigned {given}, should be {nt} once each")
    log = [l.split() for l in read("build/log").splitlines()]
    if dry:
        ck(not log, "a dry run launched commands"); ev("dry runs"); return
    busy, done = {}, []
    for k, i, w in log:
        if k == "S":
            ck(w not in busy, lambda: f"worker {w} was given task {i} while running {busy[w]}"); busy[w] = i
        else: busy.pop(w, None); done.append(int(i))
    ck(sorted(done) == list(range(nt)), lambda: f"finished tasks when the launcher returned: {sorted(done)} of {nt}")
    L = o.splitlines()
    for i in range(nt):
        tag = "[%s] " % given[i][0]
        exp = ["out-%d-%d" % (i, j) for j in range(noisy[i])] + ["err-%d" % i]
        got = [l for l in L if re.search(r" (out-%d-\d+|err-%d)$" % (i, i), l)]
        ck(got == [tag + x for x in exp], lambda: f"output of task {i}: {len(got)} lines {got[:3]}.., should be {len(exp)}")
    ev("tasks run", nt); ev("sequenced runs" if seq else "parallel runs")
    if nt > nw and seq: ev("more tasks than workers")
    seen.add(f"sc{nw},{nt},{seq},{tuple(noisy.values())}," + str(log)[:400])
def p06_workers():
    clear()
    A = load("aws/automation.py", "automation")
    names = ["veri-worker-a%02d" % R.randint(0, 12) for _ in range(R.randint(0, 8))] + ["veri-ssd-%d" % R.randint(0, 5) for _ in range(R.randint(0, 3))] + ["bastion"] + [R.choice(["my-", "xveri-", ""]) + "veri-worker-%s%d%s" % (R.choice("abc"), R.randint(0, 12), R.choice(["", "0", "-old"])) for _ in range(R.randint(0, 4))]
    names = sorted(set(names), key=lambda _: R.random())
    pats, L = [], []
    for _ in range(R.randint(0, 5)):
        k = R.random()
        x = R.choice(names) if k < 0.4 else R.choice(["veri-worker-a0.", "veri-worker-a.*", "veri-ssd-[0-3]", ".*", "worker", "veri-worker", "a01", "nothing.*", "veri-worker-[^b]0.", "veri-[^w]+-[0-9]", "veri-(worker|ssd)-.*", "veri-worker-a0[^13579]", "bastio[^$]"])
        pats.append(x)
        L.append(R.choice(["", "  "]) + R.choice(["", "^"]) + x + R.choice(["", "$"]) + R.choice(["", " ", "  # ours"]))
        if R.random() < 0.3: L.append(R.choice(["", "# veri-worker-a01", "   "]))
    write("wf", "\n".join(L) + "\n")
    ws = [{"Name": n, "id": i} for i, n in enumerate(names)]
    rx, e, o = call(A.load_worker_regex_list, "wf")
    ck(e is None, lambda: f"the worker file was refused: {err(e)}")
    got, e, o = call(A.filter_workers, ws, rx)
    want = [w for w in ws if any(re.fullmatch(p, w["Name"]) for p in pats)]
    ck(e is None and got == want, lambda: f"workers selected by {L}: {[w['Name'] for w in got or []]}, should be {[w['Name'] for w in want]}")
    ev("worker selections"); seen.add("wk" + str(L) + str(names))
    # cloud instances
    import boto3
    nm = [R.choice(["veri-worker-%s%02d", "veri-ssd-%s%02d", "bastion%s%d", "my-veri-worker-%s%d"]) % (R.choice("ab"), i) for i in range(R.randint(0, 10))]
    boto3.instances[:] = [(n, "i-%d" % i, R.choice(["running", "stopped"]), R.choice([None, "1.2.3.%d" % i])) for i, n in enumerate(nm)]
    del boto3.calls[:]
    boto3.fail_starts = 0
    k = R.random()
    ssd = R.random() < 0.4
    mine = sorted([i for i in boto3.instances if i[0].startswith("veri-ssd" if ssd else "veri-worker")])
    ids = [i[1] for i in mine]
    if k < 0.5:
        up, n, dry = R.random() < 0.5, R.randint(0, 9), R.random() < 0.2
        g, e, o = script("aws/scale-workers.py", "--scale-up" if up else "--scale-down", str(n), *(["--ssd"] if ssd else []), *(["--dry-run"] if dry else []))
        ck(e is None, lambda: f"scaling failed: {err(e)}")
        want = [] if dry else [("start", ids[:n])] if up else [("stop", ids[n:])]
        ck(boto3.calls == want, lambda: f"scaling {'up' if up else 'down'} to {n} of {[i[:2] for i in mine]} did {boto3.calls}, should do {want}")
        ev("dry scalings" if dry else "scalings up" if up else "scalings down")
    elif k < 0.8:
        run_, al = R.random() < 0.5, R.random() < 0.3
        g, e, o = script("aws/describe-instances.py", "--json", *(["--ssd"] if ssd else []), *(["--running"] if run_ else []), *(["--all"] if al else []))
        ck(e is None, lambda: f"listing failed: {err(e)}")
        got = [(x["Name"], x["InstanceId"], x["State"], x["PublicIpAddress"]) for x in json.loads(o)]
        src = sorted(boto3.instances) if al else mine
        want = [i for i in src if not run_ or i[2] == "running"]
        ck(sorted(got, key=str) == sorted(want, key=str) and [x[0] for x in got] == sorted(x[0] for x in got), lambda: f"listed {got}, should list {want}")
        ck(not boto3.calls, "listing changed something"); ev("listings")
    else:
        n = R.choice(nm + ["veri-worker-none"])
        start = R.random() < 0.5
        one = [i[1] for i in boto3.instances if i[0] == n]
        retry = start and R.random() < 0.5
        fails = R.randint(0, 13) if retry else R.choice([0, 0, 1]) if start else 0
        boto3.fail_starts = fails
        st, time.sleep = time.sleep, (lambda s: None)
        try: g, e, o = script("aws/start-stop-worker.py", *(["--start"] if start else ["--stop"]), *(["--retry-start"] if retry else []), n)
        finally: time.sleep = st
        acts = [c for c in boto3.calls if c[0] in ("start", "stop")]
        if len(one) != 1: ck(not boto3.calls and e is not None, lambda: f"{n} names {len(one)} machines but {boto3.calls} was done"); ev("ambiguous names refused")
        else:
            ok = fails < (12 if retry else 1)
            ck(acts == ([("start" if start else "stop", one)] if ok else []) and (e is None) == ok, lambda: f"{'start' if start else 'stop'} {n} with {fails} failures (retry {retry}): {boto3.calls} {err(e)}")
            ck(all(c[1] == one for c in boto3.calls), "another machine was touched")
            ev("single starts and stops"); ev("starts with failures", 1 if fails else 0)
def p06():
    k = R.random()
    (p06_suite if k < 0.45 else p06_workers if k < 0.85 else p06_sched)()

# ---------------------------------------------------------------- P07 log readers
def p07_trace(P):
    for cls in (P.Trace, P.DiscreteTrace):
        t = cls("x", "u")
        d = {R.randint(0, 1000): R.choice([R.randint(0, 10 ** 12), R.uniform(-5, 5)]) for _ in range(R.choice([0, 1, 2, 10, 40]))}
        items = list(d.items()); R.shuffle(items)
        for k, v in items: t[k] = v
        ck(len(t) == len(d) and t.empty() == (not d), "size of a trace")
        ks = sorted(d)
        for q in [R.randint(-5, 1005) for _ in range(20)] + ks[:3] + ks[-3:]:
            r = t[q]
            if q in d: w = d[q]
            elif not ks or q < ks[0] or q > ks[-1]: w = None
            else:
                b = next(k for k in ks if k > q); a = max(k for k in ks if k < q)
                w = d[b] if cls is P.DiscreteTrace else d[a] + (d[b] - d[a]) * (q - a) / (b - a)
            ok = (r is None) == (w is None) and (w is None or abs(r - w) <= 1e-9 * max(1, abs(w), *(abs(x) for x in d.values())))
            ck(ok, lambda: f"trace {sorted(d.items())[:8]} at {q} reads {r}, should read {w}")
        ev("traces"); seen.add("tr" + str(sorted(d.items())[:5]))
def exp_log(steps=(0, 1, 1000), mss=(0, 1, 999, 12345), lo=1, hi=60):
    """A benchmark log: (lines, trace -> {operation: value}, phase starts)"""
    L, M = [], {}
    def put(tr, op, v): M.setdefault(tr, {})[op] = v
    phase, op, t, pb, tb = None, 0, 0.0, 0, 0.0
    starts = {}
    num = lambda: R.choice([0, 1, 17, 4096, 10 ** 6, 1 << 40])
    ph = ["load", "workloada", "workloadc"]
    pi, o, ms = 0, 0, 0
    for i in range(R.randint(lo, hi)):
        k = R.random()
        if k < 0.35 or i == 0:
            if i and R.random() < 0.15: pi = R.choice([x for x in (0, 1, 2) if x != pi]); o, ms = 0, 0
            o += R.choice(steps); ms += R.choice(mss)
            if R.random() < 0.5: L.append("elapsed %d ops %d %s" % (ms, o, ph[pi]))
            else: L.append("[step] x %s progress %d ops %d" % (ph[pi], ms, o))
            if phase != ph[pi]: phase, pb, tb = ph[pi], op, t; starts[phase] = pb
            t = ms / 1000.0 + tb
            put("elapsed", op, t)
            op = o + pb
            put("operation", op, op)
        elif k < 0.42: a, h = num(), R.choice([-5, 0, 1 << 20, (300 << 30), (300 << 30) - 1]); L.append("os-map-total %d os-map-heap %d" % (a, h)); put("os_map_total", op, a); (put("os_map_heap", op, h) if 0 < h < (300 << 30) else None)
        elif k < 0.5:
            v = [num() for _ in range(4)]; L.append("ioaccounting read_count %d read_bytes %d write_count %d write_bytes %d" % tuple(v)); L[-1] = L[-1].replace("ioaccounting ", "ioaccounting ", 1)
            f = L[-1].split()
            for n, x in zip(("read_count", "read_bytes", "write_count", "write_bytes"), v): put(n, op, x)
            L[-1] = "ioaccounting " + " ".join(f[1:])
        elif k < 0.57:
            v = [num() for _ in range(4)]; L.append("stat-accounting utime %d stime %d vsize %d rss %d" % tuple(v))
            for n, x in zip(("utime", "stime", "vsize", "rss"), v): put(n, op, x)
        elif k < 0.62: v = [num(), num()]; L.append("proc-io read_bytes %d write_bytes %d" % tuple(v)); put("procio_read_bytes", op, v[0]); put("procio_write_bytes", op, v[1])
        elif k < 0.66: v = num(); L.append("cgroups-memory.usage_in_bytes %d" % v); put("cgroups_memory_usage_bytes", op, v)
        elif k < 0.71: v = [num() for _ in range(3)]; L.append("jem Allocated: %d, active: %d, mapped: %d" % tuple(v)); [put(n, op, x) for n, x in zip(("jem_allocated", "jem_active", "jem_mapped"), v)]
        elif k < 0.76: v, ty, un = num(), R.choice(["row", "block-cache", "x"]), R.choice(["bytes", "count"]); L.append("cache: %d %s-%s" % (v, ty, un)); put(("accum", ty + "-" + un), op, v)
        elif k < 0.8: v, n = num(), R.choice(["cache", "rss"]); L.append("cgroups-memory.stat %s %d" % (n, v)); put(("cg", n), op, v)
        elif k < 0.84: v = [num() for _ in range(3)]; L.append("ioaccounting-slow thresh %d reads %d writes %d" % tuple(v)); [put(n, op, x) for n, x in zip(("slow_thresh", "slow_reads", "slow_writes"), v)]
        elif k < 0.88: v = num(); L.append("writebackStalls %d" % v); put("writeback_stalls", op, v)
        elif k < 0.92:
            v = [num() for _ in range(4)]; L.append("ma-microscope " + "".join("%15d" % x for x in v)[:60].ljust(59)[:59] + " label %s" % R.choice(["nodes", "total"]))
            L[-1] = "ma-microscope " + "%14d %14d %14d %14d" % tuple(v) + " the " + R.choice(["nodes", "total"])
            put(("micro", L[-1].split()[-1]), op, tuple(v))
        else: L.append(R.choice(["noise", "", "Running experiment", "x elapsed", "[step] sync done x y z w"]))
    if "[step] sync done x y z w" in L: L = [l for l in L if l != "[step] sync done x y z w"]
    return L, M, starts
def p07_exp(P):
    clear()
    L, M, starts = exp_log()
    write("e.log", "\n".join(L) + "\n")
    E, e, o = call(P.Experiment, "e.log", R.choice([None, "nick"]))
    ck(e is None, lambda: f"reading a log failed: {err(e)} {L}")
    for tr, d in M.items():
        if isinstance(tr, tuple) and tr[0] == "micro":
            for i, fld in enumerate(("total_count", "open_count", "total_byte", "open_byte")):
                got = E.microscopes[tr[1]].getTrace(fld).data
                ck(got == {k: v[i] for k, v in d.items()}, lambda: f"{tr} {fld}: read {got}, logged {d}")
            continue
        got = (E.accum[tr[1]] if tr[0] == "accum" else E.cgroups_stat[tr[1]]).data if isinstance(tr, tuple) else getattr(E, tr).data
        ck(got == d, lambda: f"{tr}: read {sorted(got.items())[:6]}, logged {sorted(d.items())[:6]} in {L}")
        ev("log quantities")
    ck(E.phase_starts == starts, lambda: f"phases {E.phase_starts}, should be {starts}")
    ck(E.op_max == max(M["operation"]) and E.sortedOpns == sorted(M["operation"]), "operations of the experiment")
    if len(starts) > 1: ev("logs with several phases")
    ev("logs read"); seen.add("lg" + hashlib.md5("\n".join(L).encode()).hexdigest())
def p07_prof():
    clear()
    def mk(f):
        d, L = {}, []
        for _ in range(R.randint(0, 25)):
            loc, c = "f%d.dfy.%d" % (R.randint(0, 9), R.randint(1, 9)), R.randint(0, 99999)
            if R.random() < 0.2: L.append(R.choice(["Verifying x ...", "", "Prover log", "[quantifier_instances] y : 3 :"])); continue
            L.append("Prover warning [quantifier_instances] %s : %d : 0 : 1" % (loc, c)); d[loc] = max(d.get(loc, 0), c)
        write(f, "\n".join(L) + "\n")
        return d
    a = mk("a.log")
    if R.random() < 0.6:
        g, e, o = script("profile-reader.py", "a.log")
        ck(e is None, lambda: f"the profile reader failed: {err(e)}")
        got = [tuple(l.split()) for l in o.splitlines()]
        ck([(int(c), l) for c, l in got] == sorted((c, l) for l, c in a.items()), lambda: f"profile {got}, recorded {a}")
        ev("profiles read")
    else:
        b = mk("b.log")
        g, e, o = script("profile-reader.py", "a.log", "b.log")
        ck(e is None, lambda: f"comparing profiles failed: {err(e)}")
        got = [l.split() for l in o.splitlines()]
        ck({x[3]: (int(x[1]), int(x[2])) for x in got} == {l: (a.get(l, 1), b.get(l, 1)) for l in set(a) | set(b)}, lambda: f"comparison {got} of {a} and {b}")
        ck([int(x[2]) for x in got] == sorted(int(x[2]) for x in got), "the comparison is not sorted")
        for x in got:
            s, g2 = int(x[1]), int(x[2])
            ck(abs(float(x[0]) - (g2 / s if s else 99)) <= 0.051, lambda: f"ratio {x}")
        ev("profiles compared")
    seen.add("pr" + str(sorted(a.items())))
    if R.random() < 0.25:
        L, mx, sm, ct = [], {}, {}, {}
        for _ in range(R.randint(0, 30)):
            loc, c = "q%d.%d" % (R.randint(0, 9), R.randint(1, 3)), R.randint(0, 9999)
            L.append("[quantifier_instances] %s : %d : 1" % (loc, c)); mx[loc] = max(mx.get(loc, 0), c); sm[loc] = sm.get(loc, 0) + c; ct[loc] = ct.get(loc, 0) + 1
        write("prof.out", "\n".join(L) + "\n")
        metric, show = R.choice(["max", "sum", "count"]), R.choice([3, 30])
        g, e, o = script("dafny-profile.py", "10", "Impl$$x", "prof.out", "--metric", metric, "--show", str(show), "--dafny", os.path.join(ROOT, "bin/fakeprof"))
        ck(e is None, lambda: f"profiling failed: {err(e)}")
        d = {"max": mx, "sum": sm, "count": ct}[metric]
        rows = o.splitlines()
        at = max((i for i, l in enumerate(rows) if l.strip() == metric), default=None)
        ck(at is not None, "no profile was shown")
        got = [(int(l.split()[0]), l.split()[1]) for l in rows[at + 1:] if l.strip()]
        ck(got == [(v, k) for k, v in sorted(d.items(), key=lambda i: (-i[1], i[0]))][:show], lambda: f"profile by {metric}: {got} of {d}")
        ev("profiles by " + metric)
def p07():
    P = load("plot/parser.py", "parser")
    k = R.random()
    if k < 0.35: p07_trace(P)
    elif k < 0.75: p07_exp(P)
    else: p07_prof()

# ---------------------------------------------------------------- P08 experiment runner
import shlex
EXE = {"veri": "VeribetrfsYcsb", "rocks": "RocksYcsb", "berkeley": "BerkeleyYcsb", "kyoto": "KyotoYcsb"}
CONSTS = {"MaxTotalBucketWeightUint64": "1048576", "MaxCacheSizeUint64": "80", "DiskNumJournalBlocksUint64": "1024", "NumBlocksUint64": "2097152"}
def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f: return f.read().rsplit(")", 1)[1].split()[0] not in ("Z", "X")
    except OSError: return False
def p08_run():
    """Runs the experiment runner with every command it gives to the system recorded and modelled; only the experiment itself is a real process (a script)."""
    clear()
    import subprocess as sp
    sysn = R.choice(list(EXE))
    dev = R.choice(["ssd", "disk"]); datadir = "/tmp/veribetrfs" if dev == "ssd" else "/mnt/xvde/scratch"
    loc = datadir + {"veri": "/veribetrkv.img", "rocks": "", "berkeley": "/berkeley.db", "kyoto": "/kyoto.cbt"}[sysn]
    branch = R.choice(["master", "linear-1", "a_b"]); work = ["ycsb/w%d.spec" % R.randint(0, 9) for _ in range(R.randint(1, 4))]
    A = [sysn, "git_branch=" + branch, "workload=" + ",".join(work), "device=" + dev, "output=out.data"]
    veri = sysn == "veri"
    want, vars_, opts = {}, set(), set()
    ram = None
    if R.random() < 0.7:
        k = R.random()
        if k < 0.5: g = R.choice(["2.0", "0.5", "1", "3.25"]); A.append("ram=%sgb" % g); ram = int(float(g) * 2 ** 30)
        else: ram = R.randint(1, 1 << 40); A.append("ram=%d" % ram)
    refuse = None
    if veri:
        bw = R.choice([None, 131072, 2031616, R.randint(1, 1 << 22)])
        if bw: A.append("bucketWeight=%d" % bw); want["MaxTotalBucketWeightUint64"] = bw
        k = R.random()
        if k < 0.3: n = R.randint(1, 1 << 20); A.append("cacheSizeInNodes=%d" % n); want["MaxCacheSizeUint64"] = n
        elif k < 0.6 and bw: n = R.randint(bw, 1 << 35); A.append("cacheSizeInBytes=%d" % n); want["MaxCacheSizeUint64"] = n // bw
        if R.random() < 0.3: n = R.randint(1, 1 << 24); A.append("veriLogSizeInBlocks=%d" % n); want["DiskNumJournalBlocksUint64"] = n
        if R.random() < 0.3: n = R.randint(1, 1 << 30); A.append("NumBlocksUint64=%d" % n); want["NumBlocksUint64"] = n
        if R.random() < 0.3: A.append("use_unverified_row_cache"); vars_.add("WANT_UNVERIFIED_ROW_CACHE=true")
        if R.random() < 0.3: A.append("veriUseODirect"); vars_.add("WANT_O_DIRECT=true")
    if R.random() < 0.3: A.append("log_stats"); vars_.add("LOG_QUERY_STATS=1")
    if sysn == "rocks" and R.random() < 0.5: A.append("use_filters"); opts.add("--filters")
    arch = None
    if R.random() < 0.4: arch = R.choice(["/mnt/xvde/archives/a1", "/home/u/db.img"]); A.append("fromArchive=" + arch); opts.add("--preloaded")
    cg = True
    if R.random() < 0.5: cg = R.random() < 0.5; A.append("cgroup=%s" % cg)
    budget = None; slow = False
    if R.random() < 0.3:
        slow = R.random() < 0.3
        budget = R.choice(["0.3s", "0.005m", "0.0001h"]) if slow else R.choice(["90m", "40s", "2h"]); A.append("time_budget=" + budget)
    k = R.random()
    if k < 0.25:
        def drop(p): A[:] = [a for a in A if not a.startswith(p)]
        c = R.choice(["unknown argument", "no workload", "no device", "no branch", "no output", "no system", "output exists", "strange device", "no unit", "both sizes", "no weight", "weight of another", "row cache of another", "direct of another", "filters of another", "constant of another", "unknown constant"])
        if c == "unknown argument": A.append(R.choice(["rams=1", "cacheSize=100", "veribetrfs", "use_filter"]))
        elif c == "no workload": drop("workload=")
        elif c == "no device": drop("device=")
        elif c == "no branch": drop("git_branch=")
        elif c == "no output": drop("output=")
        elif c == "no system": A.remove(sysn); drop("bucketW"); drop("cacheS"); drop("veriU"); drop("use_")
        elif c == "strange device": drop("device="); A.append("device=" + R.choice(["tape", "SSD", ""]))
        elif c == "no unit": drop("time_budget"); A.append("time_budget=" + R.choice(["90", "10d"]))
        elif c == "both sizes": drop("cacheS"); drop("bucketW"); A += ["cacheSizeInNodes=5", "cacheSizeInBytes=5000000"] + (["bucketWeight=1000"] if veri else [])
        elif c == "no weight": drop("cacheS"); drop("bucketW"); A.append("cacheSizeInBytes=5000000")
        elif c in ("weight of another", "row cache of another", "direct of another", "constant of another"):
            if veri: c = None
            else: A.append({"w": "bucketWeight=1000", "r": "use_unverified_row_cache", "d": "veriUseODirect", "c": "NumBlocksUint64=5"}[c[0]])
        elif c == "filters of another":
            if sysn == "rocks": c = None
            else: A.append("use_filters")
        elif c == "unknown constant": A.append("NoSuchUint64=5")
        refuse = c
    if refuse == "output exists": write("out.data", "precious results\n")
    R.shuffle(A)
    fail = None
    if not refuse and R.random() < 0.2: fail = R.choice(["cgroups", "limit", "branch", "bundle", "exe", "wipe", "mkdir", "cache", "archive", "image", "binary"])
    exe_rc = R.choice([1, 2, 139]) if not refuse and not fail and not slow and R.random() < 0.15 else 0
    says = ["line %d of the experiment" % i for i in range(R.randint(0, 30))]
    write("say", "".join(x + "\n" for x in says))
    exe_text = '#!/bin/sh\nprintf "%%s\\n" "$0" "$@" > ran\ncat say\necho $$ > pids\n%s\nexit %d\n' % ("sleep 60 & echo $! >> pids\nwait" if slow else "", exe_rc)
    for f in ("ran", "pids", "cg"): 
        if os.path.exists(os.path.join(ROOT, f)): os.remove(os.path.join(ROOT, f))
    bin_ = os.path.join(TOOLS, "clear-os-page-cache")
    if os.path.exists(bin_): os.remove(bin_)
    fs = {datadir: "dir", datadir + "/stale": "stale", "/home/u/db.img": "user", "/mnt/xvde/archives/a1": "user", "/tmp/other": "user"}
    st = dict(branch=None, limit="unset", bundle_of=None, exe=None, exe_vars=None, exe_bundle=None, cleared=False, trace=0)
    runs, log, odd = [], [], []
    def under(p, d): return p == d or p.startswith(d.rstrip("/") + "/")
    def fake(cmd):
        log.append(cmd)
        try: t = shlex.split(cmd)
        except ValueError: t = cmd.split()
        out = None
        for i, x in enumerate(t):
            if x in (">", ">>") and i + 1 < len(t) and t[i + 1] != "/dev/null": out = t[i + 1]
        cut = [i for i, x in enumerate(t) if x in (">", ">>", "2>", "|") or x.startswith((">", "2>"))]
        t = t[:cut[0]] if cut else t
        env = [x for x in t if re.match(r"^\w+=", x) and t.index(x) == 0 or re.match(r"^\w+=", x) and all(re.match(r"^\w+=", y) for y in t[:t.index(x)])]
        n = 0
        while n < len(t) and (re.match(r"^\w+=", t[n]) or t[n] in ("sudo", "sh", "bash")): n += 1
        w, rest = (t[n], t[n + 1:]) if n < len(t) else ("", [])
        b = os.path.basename(w)
        args = [x for x in rest if not x.startswith("-")]
        if b == "configure-cgroups.sh":
            if fail == "cgroups": return 1 << 8
            st["limit"] = "default"; return 0
        if b == "echo" and out and "memory.limit_in_bytes" in out:
            if fail == "limit": return 1 << 8
            st["limit"] = (out, rest); return 0
        if b == "rm":
            for x in args:
                if under(os.path.normpath(x), "build"): shutil.rmtree(os.path.join(ROOT, "build"), ignore_errors=True); os.makedirs(os.path.join(ROOT, "build")) if False else None; st.update(exe=None, bundle_of=None)
                elif x == datadir or x == datadir + "/":
                    if fail == "wipe": return 1 << 8
                    for k in [k for k in fs if under(k, datadir)]: del fs[k]
                elif os.path.isabs(x): odd.append("removes " + x)
            return 0
        if b == "mkdir":
            for x in args:
                if x.rstrip("/") == datadir:
                    if fail == "mkdir": return 1 << 8
                    fs.setdefault(datadir, "dir")
            return 0
        if b == "clean-for-build.sh":
            if fail == "branch": return 1 << 8
            st.update(branch=args, exe=None, bundle_of=None); shutil.rmtree(os.path.join(ROOT, "build"), ignore_errors=True); return 0
        if b == "make":
            mv = {x for x in rest if re.match(r"^\w+=", x)}; tg = [x for x in args if x not in mv]
            os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
            for x in tg:
                if x == "build/Bundle.cpp":
                    if fail == "bundle": return 2 << 8
                    write("build/Bundle.cpp", "#include <x>\n" + "".join("\n    uint64 __default::%s()\n    {\n      return (uint64)%s;\n    }\n" % kv for kv in CONSTS.items())); st["bundle_of"] = st["branch"]
                elif x.startswith("build/") and x[6:] in EXE.values():
                    if fail == "exe": return 2 << 8
                    if not os.path.exists(os.path.join(ROOT, "build/Bundle.cpp")): fakeb = None
                    else: fakeb = read("build/Bundle.cpp")
                    write(x, exe_text); os.chmod(os.path.join(ROOT, x), 0o755)
                    st.update(exe=x[6:], exe_vars=mv | {e for e in env if e.startswith("LOG_QUERY_STATS=")}, exe_bundle=fakeb, exe_branch=st["branch"], cleared=False)
                else: odd.append("makes " + x)
            return 0
        if b == "cp":
            st["cleared"] = False
            if fail == "archive": return 1 << 8
            for src in args[:-1]: fs.setdefault(args[-1].rstrip("/") if args else "", ""); fs[args[-1].rstrip("/")] += "<" + src
            return 0
        if b == "head" and out:
            st["cleared"] = False
            if fail == "image": return 1 << 8
            fs[out] = "head " + " ".join(rest); return 0
        if b == "setup-clear-os-page-cache-binary.sh":
            if fail == "binary": return 1 << 8
            write("tools/clear-os-page-cache", ""); return 0
        if b == "clear-os-page-cache":
            if fail == "cache": return 1 << 8
            st["cleared"] = True; return 0
        if "blkparse" in cmd and "out.data" in cmd: st["kept"] = st["trace"]
        if b == "killall": st["trace"] = 0 if "blktrace" in args else st["trace"]
        return 0
    Real = sp.Popen
    mine = set()
    class P(Real):
        def __init__(self, args, *a, **k):
            s = args if isinstance(args, str) else shlex.join(args)
            if any("./build/" + e in s or " build/" + e in s for e in EXE.values()) and "make" not in s.split():
                runs.append((s, dict(st), dict(fs)))
                if len(runs) > 1: args = "exit 0"; k["shell"] = True
                super().__init__(args, *a, **k); mine.add(self.pid)
            elif "blktrace" in s and "killall" not in s:
                log.append(s); st["trace"] = 1
                k.pop("shell", None)
                super().__init__(["sh", "-c", "echo traced; exit 0"], *a, **k)
            else: 
                rc = fake(s); k.pop("shell", None)
                super().__init__(["sh", "-c", "exit %d" % (rc >> 8)], *a, **k)
    def guard(f):
        def g(pid, sig):
            if pid not in mine: odd.append("signals a process that is not the experiment"); raise ProcessLookupError("no such process")
            return f(pid, sig)
        return g
    old = (os.system, sp.Popen, os.kill, os.killpg)
    os.system, sp.Popen, os.kill, os.killpg = fake, P, guard(os.kill), guard(os.killpg)
    t0 = time.time()
    try: g, e, o = script("run-veri-config-experiment.py", *A)
    finally:
        os.system, sp.Popen, os.kill, os.killpg = old
    took = time.time() - t0
    pids = [int(x) for x in read("pids").split()] if os.path.exists(os.path.join(ROOT, "pids")) else []
    dead = True
    if slow:
        for _ in range(40):
            if not any(alive(p) for p in pids): break
            time.sleep(0.05)
        dead = not any(alive(p) for p in pids)
        for p in pids:
            if alive(p): os.kill(p, 9)
    args = " ".join(A)
    ck(not odd, lambda: f"running `{args}` also {odd[0]}")
    for p in ("/home/u/db.img", "/mnt/xvde/archives/a1", "/tmp/other"): ck(fs.get(p) == "user", lambda: f"running `{args}` changes {p}")
    if refuse:
        ck(e is not None, lambda: f"`{args}` ({refuse}) was accepted")
        ck(not runs, lambda: f"an experiment was run for `{args}` ({refuse})")
        if refuse == "output exists": ck(read("out.data") == "precious results\n", "earlier results were overwritten")
        ev("refused option lists"); seen.add("r" + args); return
    hit = fail and (fail not in ("limit",) or ram is not None) and (fail != "bundle" or veri) and (fail != "archive" or arch) and (fail != "image" or (veri and not arch))
    if hit:
        ck(e is not None, lambda: f"`{args}` succeeded although a preparation step ({fail}) failed")
        ck(not runs, lambda: f"`{args}`: the experiment was run although a preparation step ({fail}) failed")
        ev("failed preparations"); seen.add("f" + fail + args); return
    ck(len(runs) == 1, lambda: f"`{args}` ran {len(runs)} experiments ({err(e)})")
    cmd, s, f = runs[0]
    ck(s["exe"] == EXE[sysn], lambda: f"`{args}` built {s['exe']}")
    ck(s["branch"] == [branch] and s["exe_branch"] == [branch], lambda: f"`{args}` ran branch {s['branch']}")
    ck(s["exe_vars"] == vars_, lambda: f"`{args}` was built with {sorted(s['exe_vars'])}, should be {sorted(vars_)}")
    if veri:
        got = dict(re.findall(r"__default::(\w+)\(\)\n\s*\{\n\s*return \(uint64\)(\d+);", s["exe_bundle"] or ""))
        exp = dict(CONSTS, **{k: str(v) for k, v in want.items()})
        ck(s["bundle_of"] == [branch] and got == exp, lambda: f"`{args}` was built with constants {got}, should be {exp}")
        ev("settings built in", len(want))
    lim = s["limit"]
    if ram is None: ck(lim == "default", lambda: f"`{args}` ran with memory limit {lim}")
    else: ck(lim != "default" and lim != "unset" and lim[1] == [str(ram)] and "VeribetrfsExp" in lim[0], lambda: f"`{args}` ran with memory limit {lim}, should be {ram}")
    inside = {k: v for k, v in f.items() if under(k, datadir)}
    if arch: exp = {datadir: "dir<" + arch + "/*"} if sysn == "rocks" else {datadir: "dir", loc: "<" + arch}
    elif veri: exp = {datadir: "dir", loc: "head -c 17179869184 /dev/zero"}
    else: exp = {datadir: "dir"}
    ck(inside == exp, lambda: f"`{args}` started with the files {inside}, should be {exp}")
    ck(s["cleared"], lambda: f"`{args}` started with a warm page cache")
    ran = read("ran").splitlines() if os.path.exists(os.path.join(ROOT, "ran")) else []
    ck(ran[:1] and os.path.normpath(ran[0]) == "build/" + EXE[sysn] and ran[1:2] == [loc] and sorted(x for x in ran[2:] if x.startswith("--")) == sorted(opts) and [x for x in ran[2:] if not x.startswith("--")] == work, lambda: f"`{args}` executed {ran}, should be {loc} {sorted(opts)} {work}")
    grp = read("cg").strip() if os.path.exists(os.path.join(ROOT, "cg")) else None
    ck(grp == ("memory:VeribetrfsExp" if cg else None), lambda: f"`{args}` ran in memory group {grp}")
    ck(read("out.data").splitlines() == says, "the results file is not what the experiment printed")
    if slow:
        ck(dead and took < 20, lambda: f"`{args}`: the experiment goes on after its time budget"); ev("experiments stopped by their budget")
    elif exe_rc: ck(e is not None, lambda: f"`{args}` succeeded although the experiment failed"); ev("failed experiments")
    else:
        ck(e is None, lambda: f"`{args}` failed: {err(e)}")
        ck(s["trace"] == 1 and st["trace"] == 0, "the disk is not traced during the experiment and only then"); ev("experiments run")
    ev("experiments on " + sysn)
    if arch: ev("experiments from archives")
    if ram is None: ev("default memory limits")
    seen.add("x" + args)
def p08_fleet():
    """The tools that send a command to many machines."""
    clear()
    os.makedirs(os.path.join(ROOT, "logs"), exist_ok=True)
    n = R.randint(0, 9)
    ws = [{"Name": ("veri-ssd-%d" if R.random() < 0.3 else "veri-worker-a%02d") % i, "PublicIpAddress": "10.0.0.%d" % (i + 1)} for i in range(n)]
    big = R.random() < 0.6
    if big: ws += [{"Name": "veri-worker-z%02d" % i, "PublicIpAddress": "10.0.1.%d" % (i + 1)} for i in range(16)]
    R.shuffle(ws)
    write("machines", json.dumps(ws))
    pats = [".*"] if R.random() < 0.5 else R.sample(["veri-worker-a0[0-4]", "veri-ssd-.*", "veri-worker-.*", "veri-worker-a0[13579]", "veri-worker-a00"], R.randint(1, 3))
    wf = R.choice([".awsworkers", "mine"])
    write(wf, "\n".join(pats) + "\n")
    for f in ("sent", "asked"): write(f, "")
    tool = R.choice(["kill-jobs", "ls-jobs", "pull-results", "run-all", "launch-experiments", "row-cache-experiment", "launch-ycsb-benchmarks", "launch-btree", "shell"])
    dry, ssd = tool != "shell" and R.random() < 0.25, tool != "shell" and R.random() < 0.3
    sel = [w for w in ws if any(re.fullmatch(p, w["Name"]) for p in pats)]
    if tool == "shell" and wf != ".awsworkers": write(".awsworkers", "\n".join(pats) + "\n")
    a = [] if tool == "shell" else (["--workers-file", wf] if wf != ".awsworkers" else []) + (["--dry-run"] if dry else []) + (["--ssd"] if ssd else [])
    if tool == "run-all": text = R.choice(["cd veribetrfs; git pull", "uptime", "echo 'a b' > c"]); a.append(text)
    if tool == "shell": text = R.choice([w["Name"] for w in ws] + ["a0", "veri-ssd-", "nobody"]); a.append(text)
    logs = set(os.listdir(os.path.join(ROOT, "logs")))
    tm = time.sleep; time.sleep = lambda s: tm(min(s, 0.01))
    sys.path.insert(0, os.path.join(TOOLS, "aws"))
    for m in ("automation", "suite"): sys.modules.pop(m, None)
    try: g, e, o = script("aws/%s.py" % tool, *a)
    finally: time.sleep = tm; sys.path.pop(0)
    sent = [json.loads(l) for l in read("sent").splitlines()]
    asked = read("asked").split()
    what = f"{tool} {' '.join(a)} with {[w['Name'] for w in sel]}"
    if tool != "shell": ck(asked and all(x == ("ssd" if (ssd or tool == "launch-ycsb-benchmarks") and tool != "launch-btree" else "plain") for x in asked), lambda: f"{what} asked for the machines {asked}")
    if tool == "shell":
        m = [w for w in sel if text in w["Name"]]
        if len(m) != 1: ck(not sent and e is not None, lambda: f"shell on {len(m)} machines opened {sent}"); ev("ambiguous shells")
        else: ck(e is None and len(sent) == 1 and "ubuntu@" + m[0]["PublicIpAddress"] in sent[0] and sent[0][-1].startswith("ubuntu@"), lambda: f"{what} opened {sent}"); ev("shells")
        seen.add("sh" + what); return
    if tool == "launch-btree": sel = [w for w in sel if not re.fullmatch("veri-worker-b0[0-5]", w["Name"])]
    if tool in ("kill-jobs", "ls-jobs", "pull-results", "run-all"): tasks = None; nt = len(sel)
    else:
        src = ast.parse(open(os.path.join(TOOLS, "aws", tool + ".py")).read())
        S = sys.modules.get("suite")
        su = (g or {}).get("suite")
        if su is None:
            ck(not sent, lambda: f"{what} failed after {len(sent)} commands were sent: {err(e)}")
            ck(len(sel) < 16, lambda: f"{what} failed: {err(e)}")
            ev("too small fleets"); seen.add("fl" + what); return
        tasks = su.variants; nt = len(tasks)
    if nt > len(sel):
        ck(e is not None and not sent, lambda: f"{what}: {nt} tasks for {len(sel)} machines sent {len(sent)} commands"); ev("too small fleets"); seen.add("fl" + what); return
    ck(e is None, lambda: f"{what} failed: {err(e)}")
    if dry: ck(not sent, lambda: f"{what} sent {sent[:2]}"); ev("dry fleets"); return
    ips = {w["PublicIpAddress"] for w in sel}
    to = [next((x for c in s for x in [re.search(r"ubuntu@([\d.]+)", c)] if x), None) for s in sent]
    to = [x.group(1) if x else None for x in to]
    ck(len(sent) == nt and len(set(to)) == nt and set(to) <= ips, lambda: f"{what}: {nt} tasks were sent to {to}")
    if tool == "run-all": ck(all(s[-1] == text for s in sent), lambda: f"{what} sent {sent[:2]}")
    if tool == "pull-results":
        for s in sent: ck(s[0] == "rsync" and s[-2].endswith(":expresults/") and s[-1] == "expresults/", lambda: f"{what} ran {s}")
    if tool == "kill-jobs":
        for s in sent: ck("killall" in s and {"VeribetrfsYcsb", "RocksYcsb"} <= set(s), lambda: f"{what} sent {s}")
    if tasks is not None:
        outs, got = set(), []
        for s in sent:
            t = " ".join(s).split(); outs |= {x for x in t if x.startswith("output=")}
            got.append(t)
        ck(len(outs) == nt, lambda: f"{what}: results go to {sorted(outs)}")
        for v in tasks:
            mine_ = [t for t in got if "output=../" + v.outfile() in t]
            ck(len(mine_) == 1, lambda: f"{what}: {v} was sent {len(mine_)} times")
            ps = [x for val in v.values if val.variable.type in ("run_veri", "run_btree") for x in val.param_value.split()]
            ck(all(x in mine_[0] for x in ps), lambda: f"{what}: {v} was sent as {mine_[0]}, needs {ps}")
            br = [val.param_value for val in v.values if val.variable.type == "git_branch"]
            for x in br: ck(x in mine_[0], lambda: f"{what}: {v} was not sent with branch {x}")
        ev("experiments launched", nt)
    ev("commands sent to fleets", nt); seen.add("fl" + what + str(len(sent)))
def p08():
    (p08_run if R.random() < 0.75 else p08_fleet)()

# ---------------------------------------------------------------- P09 plots
def run_plot(rel, *args, cwd=ROOT):
    import matplotlib.pyplot as plt
    plt.reset()
    d = os.path.dirname(os.path.join(TOOLS, rel))
    for m in ("parser", "PlotHelper", "TimeSeries"): sys.modules.pop(m, None)
    old, here = sys.argv, os.getcwd()
    sys.argv = [os.path.join(TOOLS, rel)] + list(args)
    sys.path.insert(0, d)
    os.chdir(cwd)
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g, e, o = call(runpy.run_path, os.path.join(TOOLS, rel), run_name="__main__")
    finally:
        os.chdir(here); sys.argv = old; sys.path.remove(d)
    return plt, e, o
def at(d, op):
    """value of a logged quantity at an operation: linear between measurements, never extrapolated"""
    if op in d: return d[op]
    ks = sorted(d)
    if not ks or op < ks[0] or op > ks[-1]: return None
    i = bisect.bisect(ks, op)
    a, b = ks[i - 1], ks[i]
    return d[a] + (op - a) / float(b - a) * (d[b] - d[a])
def near(a, b): return len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)) for x, y in zip(a, b))
def same(l, c): return near(l.xs, c[0]) and near(l.ys, c[1])
def p09_perf():
    clear()
    exps, args, missing = [], [], 0
    for i in range(R.randint(1, 5)):
        nick = "exp%d%s" % (i, R.choice(["", "-rocks", "-veri"]))
        if R.random() < 0.15: args.append("%s=%s" % (nick, "nowhere/e%d.data" % i)); missing += 1; continue
        L, M, starts = exp_log(steps=R.choice([(0, 1000, 20000, 50000), (1000, 100000, 7), (50000, 200000, 1000000), (0, 1, 1000)]), mss=(0, 10, 999, 12345), hi=R.choice([5, 40, 120]))
        f = "results/e%d.data" % i; write(f, "\n".join(L) + "\n"); args.append("%s=%s" % (nick, f)); exps.append((nick, M, starts))
    out = "compare.png"
    if R.random() < 0.7: out = R.choice(["plots/cmp.png", "x.png"]); args.insert(R.randint(0, len(args)), "output=" + out)
    what = "comparing " + " ".join(args)
    plt, e, o = run_plot("plot/perf-compare.py", *args)
    ck(e is None, lambda: f"{what} failed: {err(e)}")
    ck([f for f, _ in plt.saved] == [out], lambda: f"{what} wrote {[f for f, _ in plt.saved]}, should write {out}")
    axes = plt.saved[0][1].axes
    tput = next((a for a in axes if "throughput" in a.labels.get("title", "")), None); mem = next((a for a in axes if "emory" in a.labels.get("title", "")), None)
    ck(tput is not None and mem is not None and tput.twins, lambda: f"{what}: a plot is missing")
    ela = tput.twins[0]
    left = {"throughput": list(tput.lines), "time": list(ela.lines), "memory": list(mem.lines)}
    G = float(1 << 30)
    used = {}
    def take(ax, c, nick, desc, must=True):
        l = next((l for l in left[ax] if same(l, c)), None)
        if l is None and not must: return None
        ck(l is not None, lambda: f"{what}: no curve shows {desc} of {nick}, {list(zip(*c))[:6]}; there are {[list(zip(l.xs, l.ys))[:6] for l in left[ax]][:4]}")
        left[ax].remove(l); return l
    for i, (nick, M, starts) in enumerate(exps):
        ops = sorted(M["operation"]); OP, EL = M["operation"], M["elapsed"]
        def rate(w):
            xs, ys = [], []
            for x in ops:
                v = [at(OP, x), at(OP, x - w), at(EL, x), at(EL, x - w)]
                if None in v or v[2] == v[3]: continue
                xs.append(x / 1000.0); ys.append((v[0] - v[1]) / 1000.0 / (v[2] - v[3]))
            return xs, ys
        def curve(d, k=1.0):
            p = [(x / 1000.0, at(d, x) / k) for x in ops if at(d, x) is not None]
            return [x for x, _ in p], [y for _, y in p]
        cols = set()
        for w in (100000, 1000000):
            c = rate(w); l = take("throughput", c, nick, "the rate over %d operations" % w); cols.add(l.kw.get("color"))
            if w == 100000: ck(l.label and l.label.startswith(nick), lambda: f"{what}: the throughput of {nick} is labelled {l.label}")
            if c[0]: ev("throughput curves")
        l = take("time", curve(EL), nick, "the elapsed time"); cols.add(l.kw.get("color"))
        ck(l.label and l.label.startswith(nick), lambda: f"{what}: the time of {nick} is labelled {l.label}")
        ck(len(cols) == 1 and None not in cols, lambda: f"{what}: the curves of {nick} have the colours {cols}")
        ck(not cols & set(used), lambda: f"{what}: {nick} has the colour of {[used.get(c) for c in cols]}")
        used[next(iter(cols))] = nick
        mcols = set()
        Z = lambda n: M.get(n, {})
        parts = [Z(("accum", n)) for n in ("bucket-message-bytes", "bucket-key-bytes", "pivot-key-bytes")]
        tot = {x: sum(at(p, x) for p in parts) for x in ops if all(at(p, x) is not None for p in parts)}
        for n, d, always in (("os mem", Z("os_map_total"), 0), ("cgroups", Z("cgroups_memory_usage_bytes"), 1), ("mapped", Z("jem_mapped"), 0), ("alloc", Z("jem_allocated"), 0), ("malloc", {k: v[3] for k, v in Z(("micro", "total")).items()}, 0), ("internal", tot, 1)):
            c = ([x / 1000.0 for x in sorted(tot)], [tot[x] / G for x in sorted(tot)]) if n == "internal" else curve(d, G)
            if not c[0]: continue
            l = take("memory", c, nick, n); mcols.add(l.kw.get("color")); ev("memory curves")
            if always or i == 0: ck(l.label and l.label.startswith(nick) and n in l.label.lower() and "%.2f" % c[1][-1] in l.label, lambda: f"{what}: {n} of {nick} ending at {c[1][-1]} is labelled {l.label}")
        ck(len(mcols) < 2, lambda: f"{what}: the memory curves of {nick} have the colours {mcols}")
    for a, ls in left.items(): ck(not [l for l in ls if l.xs], lambda: f"{what}: the {a} plot shows other curves: {[(l.label, list(zip(l.xs, l.ys))[:4]) for l in ls][:3]}")
    ck("K" in tput.labels.get("y", "K") and "Gi" in mem.labels.get("y", "Gi"), lambda: f"{what}: the axes are labelled {tput.labels} {mem.labels}")
    if exps: ck(sorted((round(x, 9), s) for x, _, s in tput.texts) == sorted((round(v / 1000.0, 9), k) for k, v in exps[0][2].items()), lambda: f"{what}: phases are marked at {tput.texts}, they start at {exps[0][2]}")
    if missing: ev("unreadable logs skipped")
    ev("comparisons"); seen.add("pc" + what + str([sorted(m["operation"]) for _, m, _ in exps]))
def p09_veri():
    clear()
    W = os.path.join(ROOT, "w")
    os.makedirs(os.path.join(W, "expresults")); os.makedirs(os.path.join(ROOT, "veripapers/osdi2020/data")); os.makedirs(os.path.join(ROOT, "veripapers/osdi2020/figures"))
    srcs = {}
    for i in range(R.randint(1, 4)):
        f = "src%d.i.dfy" % i; decl, T = {}, ["module M%d {" % i]
        for j in range(R.randint(1, 12)):
            nm, ty, cl = "Sym%d_%d" % (i, j), R.choice(["method", "lemma", "function", "predicate"]), R.choice(["", "", "modifies this", "reads Repr", "requires true"])
            T.append("  %s %s(a: int)" % (ty, nm)); T += ["    ensures true"] * R.randint(0, 1) + (["  " + cl] if cl else []) + ["  {}"]
            decl[nm] = cl.startswith(("modifies", "reads"))
        write("w/" + f, "\n".join(T) + "\n}\n"); srcs[f] = decl
    workers = ["10.0.0.%d" % i for i in range(1, R.randint(3, 7))]
    bogus = R.choice(workers) if R.random() < 0.4 else None
    nsym = R.choice([30, 60]) if bogus else R.randint(3, 30)
    groups, obs_all = {}, {}
    for g, tag in (("dynamic-frames", "branch-dynamic-frames"), ("linear", "branch-linear")):
        base, where, fs = {}, {}, {}
        for k in range(nsym):
            f = R.choice(list(srcs)); j = R.choice(list(srcs[f])) if R.random() < 0.7 else "Other%d" % k
            sy = "M%d.C%d.%s" % (k % 3, k, j); fs.setdefault(f, []).append(sy); where[sy] = f
            base[sy] = 12.5 if k == 0 else 55.0 if k == 1 else 0.25 if k == 2 else R.choice([0.05, 0.8, 3.0, 9.0, 10.0, 11.0, 19.0, 20.0, 21.0, 44.0])
        obs = {}
        for r in range(R.randint(3, 6)):
            w = workers[(r + 1) % len(workers)]; L = ["WORKER " + w, "make[1]: Entering directory"]
            for f, sys_ in fs.items():
                L.append("Parsing ./" + f if R.random() < 0.3 else "Parsing " + f)
                for sy in sys_:
                    best = None
                    for part in R.sample(["Impl", "CheckWellformed", "CheckWellFormed"], R.choice([1, 1, 2])):
                        t = round(base[sy] * (R.choice([1.0, 1.01, 0.99]) if part == "Impl" else 0.1) * (R.choice([9, 12]) if w == bogus else 1), 3)
                        L.append("Verifying %s$$%s ..." % (part, sy)); L += [""] * R.randint(0, 1)
                        if R.random() < 0.03: L.append("  [%s s, 3 proof obligations]  error" % t); continue
                        L.append("  [%s s, %d proof obligations]  verified" % (t, R.randint(1, 9))); best = t if best is None else max(best, t)
                    if best is not None: obs.setdefault(sy, []).append((best, w))
            write("w/expresults/veri_time_september_bb_branch-%s-replica%d.data" % (tag[7:], r), "\n".join(L) + "\n")
        groups[g] = (obs, where)
    med = lambda v: sorted(v)[len(v) // 2] if len(v) % 2 else (sorted(v)[len(v) // 2 - 1] + sorted(v)[len(v) // 2]) / 2.0
    def cv(v): m = math.fsum(v) / len(v); return math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v)) / med(v)
    drop, edge = set(), False
    for g, (obs, where) in groups.items():
        n = collections.Counter()
        for sy, v in obs.items():
            c = cv([t for t, _ in v])
            if abs(c - 0.3) < 1e-6: edge = True
            if c >= 0.3:
                n[max(v)[1]] += 1
                if len({w for t, w in v if t == max(v)[0]}) > 1: edge = True
        drop |= {w for w, k in n.items() if k > 20}
    fin = {g: {sy: med([t for t, w in v if w not in drop]) for sy, v in obs.items() if any(w not in drop for _, w in v)} for g, (obs, _) in groups.items()}
    ok = all(any(t > 20 for t in f.values()) and any(t <= 10 for t in f.values()) for f in fin.values())
    plt, e, o = run_plot("plot/plot-verification-time.py", cwd=W)
    if edge or not ok: return
    ck(e is None, lambda: f"verification times of {len(workers)} workers, {nsym} definitions: {err(e)}")
    tots = [float(x) for x in re.findall(r"[Tt]otal sequential time: ([\d.]+)s", o)]
    ck(len(tots) == 2 and all(abs(a - math.fsum(fin[g].values())) <= 0.0501 for a, g in zip(tots, fin)), lambda: f"total times {tots}, should be {[math.fsum(f.values()) for f in fin.values()]}, dropped workers {drop}")
    got = re.findall(r"^slowest (\S+) ([\d.]+)s", o, re.M); i = 0
    for g, f in fin.items():
        n = min(10, len(f)); mine = got[i:i + n]; i += n
        top = sorted(f.values(), reverse=True)[:n]
        ck(len(mine) == n and all(abs(float(t) - x) <= 0.0501 and abs(f.get(sy, -1) - x) <= 1e-9 for (sy, t), x in zip(mine, top)), lambda: f"slowest definitions of {g}: {mine}, should have times {top}")
    figs = [f for f in plt.saved]
    ck([os.path.basename(f) for f, _ in figs] == ["verification-times-%s.pdf" % g for g in fin], lambda: f"figures {[f for f, _ in figs]}")
    for (fn, fig), (g, f) in zip(figs, fin.items()):
        N = len(f); ts = sorted(f.values())
        ck(any(near(l.xs, ts) and near(l.ys, [-math.log10(1 - k / float(N)) for k in range(N)]) for a in fig.axes for l in a.lines), lambda: f"{fn} does not show the {N} times of {g}")
    C = dict(re.findall(r"newcommand\{\\(\w+)\}\{(.*)\}$", read("veripapers/osdi2020/data/verification-constants.tex"), re.M))
    f, where = fin["linear"], groups["linear"][1]
    for lab, th in (("tenSec", 10), ("twentySec", 20)):
        slow = [sy for sy, t in f.items() if t > th]
        heap = [sy for sy in slow if srcs[where[sy]].get(sy.split(".")[-1])]
        fast = len(f) - len(slow)
        pct = C.get(lab + "FasterPctile", "").rstrip("%\\")
        ck(C.get(lab + "SlowThresholdSecs") == str(th) and C.get(lab + "NumSlowVerifications") == str(len(slow)), lambda: f"{C}: {len(slow)} definitions take more than {th} s")
        ck(C.get(lab + "PctOfSlowVerifsInvolvingHeap") == "%d\\%%" % int(100.0 * len(heap) / len(slow)), lambda: f"{C}: {len(heap)} of {len(slow)} slow definitions involve the heap")
        ck(100.0 * (fast - 1) / len(f) - 0.051 <= float(pct) <= 100.0 * fast / len(f) + 0.051, lambda: f"{C}: {fast} of {len(f)} are within {th} s")
    if drop: ev("bogus workers dropped")
    ev("verification time reports"); seen.add("vt" + str(sorted(fin["linear"].items()))[:300])
def p09_btree():
    clear()
    sizes = sorted(R.sample([1000000 * i for i in range(1, 9)], R.randint(1, 6)))
    data, order = {}, {}
    brs = R.sample(["eval-btree-master", "eval-btree-linear", "third one"], R.randint(1, 3))
    os.makedirs(os.path.join(ROOT, "data"))
    k = 0
    for b in brs:
        reps = R.randint(1, 4)
        for r in range(reps):
            mine = list(sizes); R.random() < 0.3 and R.shuffle(mine)
            if r and R.random() < 0.3: mine = mine[:R.randint(1, len(mine))]
            L = ["METADATA branch " + b, "METADATA seed %d" % r]
            for sz in mine:
                for mode in R.sample(["write", "read"], 2):
                    t = R.choice([123.5, 999.0, R.randint(1, 10 ** 6) / 7.0]); L.append("%d %s x %r" % (sz, mode, t)); data.setdefault((b, mode, sz), []).append(sz / t)
            write("expresults/btree-tp/r%d.data" % k, "\n".join(L) + "\n"); k += 1
    if R.random() < 0.3: write("expresults/btree-tp/notes.txt", "not data\n")
    plt, e, o = run_plot("plot/plot-linear-experiments.py")
    ck(e is None, lambda: f"plotting the b-tree experiments failed: {err(e)}")
    ck(len(plt.saved) == 1, lambda: f"wrote {plt.saved}")
    axs = plt.saved[0][1].axes
    ck(len(axs) == 2, "there should be a plot of reads and one of inserts")
    for ax in axs:
        mode = "read" if "read" in ax.labels.get("y", "") else "write"
        ck(sorted(l.label for l in ax.bars) == sorted(brs), lambda: f"{mode}: bars of {[l.label for l in ax.bars]}, measured {brs}")
        labels = [float(x) for x in ax.ticklabels]
        ck(len(labels) == len(ax.ticks) == len(sizes) and sorted(labels) == [s / 1e6 for s in sizes], lambda: f"{mode}: the sizes are labelled {ax.ticklabels}, measured {sizes}")
        for l in ax.bars:
            got = {}
            for j, x in enumerate(l.xs):
                i = min(range(len(labels)), key=lambda i: abs(ax.ticks[i] - x)); got[labels[i]] = (l.ys[j], l.kw["yerr"][j])
            for sz in sizes:
                v = data[(l.label, mode, sz)]; m = math.fsum(v) / len(v); sd = math.sqrt(math.fsum((x - m) ** 2 for x in v) / len(v))
                y = got.get(sz / 1e6)
                ck(y is not None and near(y, (m / 1000, sd / 1000)), lambda: f"{mode} of {l.label} at {sz}: shown {y}, measured {m / 1000} +- {sd / 1000} from {len(v)} runs")
                ev("bars")
    ev("b-tree comparisons"); seen.add("bt" + str(sorted(data.items()))[:300])
def p09():
    k = R.random()
    (p09_perf if k < 0.5 else p09_veri if k < 0.75 else p09_btree)()

def setup():
    os.makedirs(ROOT)
    shutil.copytree(os.path.join(REPO, "tools"), TOOLS, ignore=shutil.ignore_patterns("__pycache__"))
    def exe(rel, t):
        write(rel, t); os.chmod(os.path.join(ROOT, rel), 0o755)
    exe(".dafny/dafny/Binaries/dafny", '#!/bin/sh\nm=ghost\nfor a in "$@"; do case "$a" in /printMode:NoGhost) m=real;; esac; f="$a"; done\ncat "$f.$m"\n')
    exe(".dafny/dafny/Binaries/Dafny", '#!/bin/sh\nexit 1\n')
    exe("bin/sloccount", '#!/bin/sh\nfor a in "$@"; do d="$a"; done\nn=$(cat "$d"/* | grep -c .)\necho "SLOC Directory"\necho "$n  cs  x/f.cs"\n')
    exe("bin/fakeprof", '#!/bin/sh\nfor a in "$@"; do f="$a"; done\ncat "$f"\n')
    exe("bin/taskset", '#!/bin/sh\nshift\nexec "$@"\n')
    exe("bin/cgexec", '#!/bin/sh\necho "$2" > cg\nshift 2\nexec "$@"\n')
    exe("bin/time", '#!/bin/sh\n"$@" 2>/dev/null\nexit $?\n')
    for k in ("sudo", "killall", "iostat", "blktrace", "blkparse"): exe("bin/" + k, '#!/bin/sh\nexit 0\n')
    fleet = "#!/usr/bin/env python3\nimport sys, json\na = [sys.argv[0].split('/')[-1]] + sys.argv[1:]\n" \
        "if a[:2] == ['ssh', 'bastion']:\n    open('asked', 'a').write('ssd\\n' if '--ssd' in a else 'plain\\n'); print(open('machines').read())\n" \
        "else: open('sent', 'a').write(json.dumps(a) + '\\n'); print('done on ' + a[-1])\n"
    exe("bin/ssh", fleet); exe("bin/rsync", fleet)
    os.environ["PATH"] = os.path.join(ROOT, "bin") + ":" + os.environ["PATH"]
    os.environ.pop("ROOT", None)
    sys.path[:0] = [os.path.join(HERE, "stub"), TOOLS]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    try: import numpy
    except Exception: sys.path[-1] = os.path.join(HERE, "stub2")
    sys.dont_write_bytecode = True
    os.chdir(ROOT)

if __name__ == "__main__":
    setup()
    f = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09}[MODE]
    t0, n = time.time(), 0
    while time.time() - t0 < SECS and len(viol) < 3:
        try: f(); n += 1
        except Bad: pass
        except (AttributeError, ImportError): raise
        except Exception as e:
            viol.append("what the tool produced cannot be read: %s at %s" % (err(e), traceback.extract_tb(e.__traceback__)[-1].line))
    print("RESULT " + json.dumps({"evaluations": evals, "distinct": len(seen), "events": dict(events, projects=n), "samples": [f"{MODE} seed {SEED}: {n} rounds"], "violations": viol}))
