HEAD = '''t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
'''
TAIL = '''wait
if grep -h '"violations": \\["' "$t"/out.*; then exit 1; fi
grep -qh '^RESULT' "$t"/out.* || { cat "$t"/out.*; exit 2; }'''
Y = lambda v: HEAD + f'''F="-std=c++17 -w -O1 -D_YCSB_{v} -I$here/ycsb -Iycsb/wrappers -Iframework"
clang++ $F -c ycsb/YcsbMain.cpp -o "$t/m.o" && clang++ $F -c ycsb/wrappers/ycsbwrappers.cpp -o "$t/w.o" && clang++ $F -c "$here/ycsbsim.cpp" -o "$t/s.o" || exit 2
objcopy --redefine-sym main=ycsb_main "$t/m.o" && clang++ "$t"/*.o -Wl,--wrap=exit,--wrap=system,--wrap=abort,--wrap=__assert_fail -o "$t/h" || exit 2
for s in 1 2 3 4; do "$t/h" x $s 8 > "$t/out.$s" 2>&1 & done; ''' + TAIL
B = lambda *m: HEAD + f'''cp "$here"/bmk/* framework/Application.h framework/Benchmarks.h framework/Benchmarks.cpp framework/Main.cpp "$t"
F="-std=c++17 -msse4.2 -w -O2 -I$t -I$here -Iframework"
clang++ $F -c "$t/Benchmarks.cpp" -o "$t/b.o" && clang++ $F -c "$t/Main.cpp" -o "$t/m.o" && clang++ $F -c "$here/benchsim.cpp" -o "$t/s.o" && clang++ $F -c "$here/DafnyRuntime.cpp" -o "$t/r.o" || exit 2
objcopy --redefine-sym main=vb_main "$t/m.o" && clang++ "$t"/*.o -Wl,--wrap=exit -o "$t/h" || exit 2
for m in {" ".join(m)}; do "$t/h" $m 1 8 > "$t/out.$m" 2>&1 & done; ''' + TAIL
YM, FB = "ycsb/YcsbMain.cpp", "framework/Benchmarks.cpp"
def s(id, prop, kit, f, old, new, demo, needs, breaks): return dict(id=id, property=prop, kit=kit, edits=[(f, old, new)], demo=demo, needs=needs, breaks=breaks)
S = [
 s("Y01-rmwdirty", "Y01", "ycsb", YM, '''        performReadModifyWrite();
        have_done_insert_since_last_sync = true;''', '''        performReadModifyWrite();''', Y("VERIBETRFS"),
   "a stretch of a run in which read-modify-write is the only kind of write since the last sync", "the run ends with writes that were never synced, and the interval's syncs are skipped"),
 s("Y01-step", "Y01", "ycsb", YM, "while (i < len && cursor->step())", "while (cursor->step() && i < len)", Y("KYOTO"),
   "a scan with the Kyoto Cabinet store that does not run into the end", "a scan steps over one entry more than asked for"),
 s("Y01-preloaded", "Y01", "ycsb", YM, '''    if (preloaded && i == first_workload_filename)
      pretend''', '''    if (preloaded && i == first_workload_filename && i == 3)
      pretend''', Y("VERIBETRFS"), "--preloaded together with another option", "a preloaded store is loaded again"),
 s("Y02-accum", "Y02", "bench", FB, "    ns += std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - last).count();", "    ns = std::chrono::duration_cast<std::chrono::nanoseconds>(t2 - last).count();", B("stopwatch"),
   "a stopwatch used more than once", "the time reported for a stopwatch is that of its last use only"),
 s("Y02-succsize", "Y02", "bench", FB, "      if (result != query_results[i]) {", "      if (result.size() != query_results[i].size()) {", B("random-succs"),
   "a scan whose answer is wrong but of the right length", "the benchmark does not notice that a scan answers wrongly"),
]
