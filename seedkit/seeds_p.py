DEMO = lambda m, seeds="1 2 3 4": f'''t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
export PYT_REPO="$PWD" PYT_SCRATCH="$t" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
cp -r "$here" "$t/kit"
for s in {seeds}; do python3 "$t/kit/h.py" {m} $s 12 > "$t/out.$s" 2>&1 & done; wait
if grep -h '"violations": \\["' "$t"/out.*; then exit 1; fi
grep -qh '^RESULT' "$t"/out.* || {{ cat "$t"/out.1; exit 2; }}'''
def s(id, prop, f, old, new, needs, breaks):
    return dict(id=id, property=prop, kit="pyt", edits=[(f, old, new)], demo=DEMO(prop), needs=needs, breaks=breaks)
S = [
 s("P01-tenerr", "P01", "tools/lib_aggregate.py", r'''finished with.* (\d+) error"''', r'''finished with.* (\d) error"''',
   "a file with ten or more verification errors", "a file with ten or more errors counts as verified and the verdict is a success"),
 s("P02-dottrust", "P02", "tools/lib_deps.py", '''    def isTrusted(self):
        return self.raw_reference.endswith(".s.dfy")''', '''    def isTrusted(self):
        return ".s." in self.raw_reference''',
   "an untrusted file in a directory (or with a base name) containing '.s.'", "a trusted file may include an untrusted one without being refused"),
 s("P03-diamond", "P03", "tools/dep-graph.py", '''        for dep in childrenForIref(iref):
            self.output.append('"%s" -> "%s";' % (iref.normPath, dep.normPath))
        for dep in childrenForIref(iref):
            self.visit(dep)''', '''        for dep in childrenForIref(iref):
            if dep in self.visited:
                continue
            self.output.append('"%s" -> "%s";' % (iref.normPath, dep.normPath))
            self.visit(dep)''',
   "a file reached by two include paths", "the picture lacks includes of files drawn earlier"),
 s("P04-nested", "P04", "tools/line_count_lib.py", '''          depth-=1
''', '''          depth=0
''', "nested block comments in the printed source", "text of outer comments is counted as code"),
 s("P05-nestedbuild", "P05", "tools/renaminator.py", "                top = parts[1]\n", "                top = parts[-1]\n",
   "a referring file in a nested directory with the name of an excluded one", "includes in such files are not updated by a move"),
 s("P06-caret", "P06", "tools/aws/automation.py", '''            if not line.startswith("^"):
                line = "^" + line''', '''            if "^" not in line:
                line = "^" + line''', "a worker pattern with a negated character class", "machines outside the selection are given tasks"),
 s("P07-phase", "P07", "tools/plot/parser.py", "                if cur_phase != phase:\n", "                if phase not in self.phase_starts:\n",
   "a log which returns to a phase it had left", "operations of the resumed phase are counted from the wrong base"),
 dict(id="P08-warm", property="P08", kit="pyt", edits=[("tools/run-veri-config-experiment.py", """  if from_archive:
    if rocks:
      ret =""", """  clear_page_cache()

  if from_archive:
    if rocks:
      ret ="""), ("tools/run-veri-config-experiment.py", """
  clear_page_cache()

  os.system("iostat")
""", """
  os.system("iostat")
""")], demo=DEMO("P08"), needs="an experiment that starts from an archive or a fresh image (the copy is made after the cache was cleared)", breaks="experiments are measured with the store in the page cache"),
 s("P08-budgetnodes", "P08", "tools/run-veri-config-experiment.py", """      veri_cache_size_in_nodes = veri_cache_size_in_bytes // veri_bucket_weight
""", """      veri_cache_size_in_nodes = (veri_cache_size_in_bytes + veri_bucket_weight - 1) // veri_bucket_weight
""", "a cache size in bytes that is not a multiple of the bucket weight", "the cache built in exceeds the requested number of bytes"),
 dict(id="P08-partial", property="P08", kit="pyt", edits=[("tools/aws/automation.py", """    if ntasks > len(workers):
        raise Exception("Requested %d tasks for %d workers" % (ntasks, len(workers)))
    monitors = []

    for idx in range(ntasks):
        worker = workers[idx]
""", """    monitors = []

    for idx in range(ntasks):
        if idx >= len(workers):
            raise Exception("Requested %d tasks for %d workers" % (ntasks, len(workers)))
        worker = workers[idx]
"""), ("tools/aws/automation.py", """        if not dry_run:
            monitors.append(monitor)

    for monitor in monitors:
        monitor.launch()
    return monitors
""", """        if not dry_run:
            monitor.launch()
            monitors.append(monitor)
    return monitors
""")], demo=DEMO("P08"), needs="more configurations than selected machines", breaks="part of the suite is launched before the tool fails"),
 s("P09-branchmerge", "P09", "tools/plot/plot-linear-experiments.py", """        for k in set(self.sizes()).union(other.sizes()):
            self.data[k] = self.data.get(k, []) + other.data.get(k, [])""", """        for k in self.sizes():
            self.data[k] = self.data.get(k, []) + other.data.get(k, [])""",
   "several result files of one branch, the last of which lacks a size", "the measurements of a size are dropped from the comparison"),
 s("P09-window", "P09", "tools/plot/PlotHelper.py", "        opnBefore = opn - window\n        #if", "        opnBefore = max(opn - window, 0)\n        #if",
   "an experiment with operations earlier than the window", "throughput is invented for windows that began before the measurements"),
 s("P09-medianbogus", "P09", "tools/plot/plot-verification-time.py", """        for obs in report.observations:
            if obs.worker_name not in bogus_workers:
                newpile.put_replica(symbol, obs)""", """        for obs in report.observations:
            if obs.worker_name in bogus_workers and len(report.observations) > 3:
                continue
            newpile.put_replica(symbol, obs)""",
   "a bogus worker and a definition with few observations", "the outlying times of a bogus worker stay in the published times"),
 s("P09-part", "P09", "tools/plot/plot-verification-time.py", """        pile.put_replica(symbol, max(observations, key=lambda obs: obs.time))""", """        pile.put_replica(symbol, observations[-1])""",
   "a definition whose well-formedness check is reported after its implementation", "the time of the shorter part is published"),
]
