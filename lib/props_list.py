HOOKS = None
NOTES = "See DESIGN.md. Every check rebuilds what it runs from /repo's working tree in a scratch directory under /verif/.work."
RUSTC = "rustc in Verus' erased mode; own stand-in for the verification library's run-time part"

MARSH = ["Splinter/src/marshalling/IntegerMarshalling_v.rs", "Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs",
         "Splinter/src/marshalling/UniformSizedSeq_v.rs", "Splinter/src/marshalling/VariableSizedElementSeq_v.rs",
         "Splinter/src/marshalling/KVPairFormat_v.rs"]
prop("M01", "Marshalled records read back as the same value",
     "Every value that a storage format of the Rust marshalling library accepts for writing reads back from the bytes it produced as exactly the same value, occupying exactly the number of bytes the format announces for it. Writing changes no byte of the destination buffer outside the announced range.",
     ["inputs"], "all formats (fixed integers, uniform, resizable and variable-sized sequences, key/value pairs and nestings of them), all values, all buffer offsets",
     "The tests are Verus proofs run with several assumptions left in the marshalling code; they run nothing, and the assumed-away spots are checked by nobody.",
     MARSH, [("exec_size / exec_marshall / exec_parse", f) for f in MARSH], observe=["bytes written into the buffer", "value returned by parsing"],
     cmd="python3 checks/marsh.py M01", technique="runtime monitoring: round-trip monitor over randomised values and formats",
     note="Held on the generated values; runs the real source compiled by " + RUSTC + ", with overflow and debug assertions on.")
prop("M02", "Parsing arbitrary bytes is total and exact",
     "Parsing any byte string, including hostile or truncated ones, never panics, never aborts the process on an allocation driven by a length stored in the data, and never reads outside the given slice. It succeeds exactly when the bytes are a well-formed encoding, and then returns the encoded value.",
     ["inputs", "fault_sequences"], "all byte strings and slices of buffers, for all formats",
     "The tests verify the code modulo assumptions and never execute it on corrupt bytes.",
     MARSH, [("try_parse / try_length / try_get / exec_well_formed", f) for f in MARSH], observe=["result of every parsing entry point"],
     cmd="python3 checks/marsh.py M02", technique="runtime monitoring: differential oracle on hostile byte strings",
     note="Held on the generated byte strings; oracle is an independent byte-level parser.")
prop("M03", "In-place edits of marshalled sequences behave like list edits",
     "Setting an element, changing the length, or appending to a sequence stored in a byte buffer leaves the buffer encoding exactly the edited list: untouched elements keep their values and nothing outside the sequence changes; initialising an area makes an empty sequence. An operation reported as possible succeeds and one that does not fit is refused without damage.",
     ["inputs", "histories"], "all edit histories on all resizable and variable-sized sequence formats",
     "The tests execute no edits; the proofs assume parts of these very operations.",
     MARSH, [("exec_set / exec_resize / exec_append", f) for f in MARSH], observe=["buffer bytes after each edit"],
     cmd="python3 checks/marsh.py M03", technique="runtime monitoring: list-model monitor over edit histories",
     note="Held on the generated edit histories.")

# ---- V: the VeriBetrFS key-value store as a whole
VT = "runtime monitoring: "
VN = "Held on the simulated histories observed; the repository's Dafny handlers are translated to C++ by /verif/dfyx (the fork compiler is not available here) and run against a simulated asynchronous disk with scaled-down and production size constants."
H = ("handle*", "Impl/MainHandlers.i.dfy")
prop("V01", "The store answers like a dictionary",
     "A point lookup of a key returns the value of the latest accepted insertion of that key, and the empty value if there was none or it was last set to empty. This holds for all keys and values up to the length limits, whatever the tree has buffered, flushed, split, evicted, paged in or written out in between, and however disk requests are reordered or delayed.",
     ["inputs", "histories", "schedules"], "all keys and values, all histories of operations, all orders in which disk requests complete",
     "No test executes the store: its correctness rests on proofs the existing tests do not re-run for these files, so nothing notices a broken flush, split or merge.",
     ["Impl/QueryImpl.i.dfy", "Impl/InsertImpl.i.dfy", "Impl/FlushImpl.i.dfy", "Impl/SplitImpl.i.dfy", "Impl/GrowImpl.i.dfy", "Impl/NodeImpl.i.dfy", "lib/Buckets/BucketImpl.i.dfy", "lib/Buckets/PackedKV.i.dfy"],
     [H, ("query", "Impl/QueryImpl.i.dfy"), ("flush", "Impl/FlushImpl.i.dfy")], observe=["value returned by each completed lookup"],
     cmd="python3 checks/vb.py V01", technique=VT + "model-based monitor of every lookup under random schedules", note=VN)
prop("V02", "Range scans return exactly the live entries in order",
     "A range scan returns, in increasing key order, exactly the keys with a non-empty value that lie between its start and the end it reports, each once and with its current value, and never more entries than asked for. It reports an end that makes progress, so that resuming from it visits every live entry exactly once.",
     ["inputs", "histories"], "all start bounds (none, inclusive, exclusive), all limits, all contents and buffering states",
     "No test executes a scan.",
     ["Impl/SuccImpl.i.dfy", "Impl/BucketSuccessorLoopImpl.i.dfy", "Impl/BucketGeneratorImpl.i.dfy", "Impl/BucketIteratorImpl.i.dfy"],
     [("doSucc", "Impl/SuccImpl.i.dfy"), ("GetSuccessorInBucketStack", "Impl/BucketSuccessorLoopImpl.i.dfy")], observe=["entries and end bound of each scan"],
     cmd="python3 checks/vb.py V02", technique=VT + "model-based monitor of every scan", note=VN)
prop("V03", "A crash loses no synced operation and leaves a prefix",
     "After a crash at any moment, with any subset of the outstanding disk writes having taken place, the store recovers to the state after some prefix of the accepted operations that contains every operation a completed sync covered. Recovery itself can be interrupted by another crash, and a recovered store works and can be made durable again.",
     ["crash_points", "schedules", "histories"], "all crash points, all subsets of outstanding writes, all histories of operations, syncs and earlier crashes",
     "No test crashes the store; crash states are combinatorial in the outstanding writes.",
     ["Impl/CommitterImpl.i.dfy", "Impl/JournalistImpl.i.dfy", "Impl/SyncImpl.i.dfy", "Impl/CoordinationImpl.i.dfy", "Impl/HandleReadResponseImpl.i.dfy", "Impl/HandleWriteResponseImpl.i.dfy", "Impl/IOImpl.i.dfy", "BlockCacheSystem/JournalCache.i.dfy"],
     [("tryAdvanceLog / tryAdvanceLocation", "Impl/CommitterImpl.i.dfy"), ("popSync", "Impl/CoordinationImpl.i.dfy")], observe=["simulated disk", "contents after recovery"],
     cmd="python3 checks/vb.py V03", technique=VT + "crash injection with an operation-log oracle", note=VN)
prop("V04", "Operations and syncs complete once the disk answers",
     "If every disk request is eventually answered and an operation is retried, then insertions (after the syncs that make room), lookups, scans and both kinds of sync eventually complete. Outstanding sync requests have different identifiers.",
     ["schedules", "histories"], "all reachable states followed by a fair schedule",
     "Progress is neither proved in this repository nor tested.",
     ["Impl/SyncImpl.i.dfy", "Impl/CommitterImpl.i.dfy", "Impl/EvictImpl.i.dfy", "Impl/FlushPolicyImpl.i.dfy", "Impl/CoordinationImpl.i.dfy", "Impl/SuccImpl.i.dfy"],
     [("popSync", "Impl/CoordinationImpl.i.dfy"), ("EvictOrDealloc", "Impl/EvictImpl.i.dfy")], observe=["completion of each operation in fair phases"],
     cmd="python3 checks/vb.py V04", technique=VT + "progress watchdog in fair phases of random histories", note=VN + " Two stalls of the unchanged tree are known findings.")
prop("V05", "Disk requests stay in bounds and never race",
     "Every disk request is aligned, non-empty and inside the device, no write overlaps another outstanding request, and each handler call issues at most one request (or one pair of superblock writes). Nothing is read that was never written.",
     ["schedules", "histories"], "all reachable states and completion orders",
     "No test issues a disk request.",
     ["Impl/IOImpl.i.dfy", "Impl/BlockAllocatorImpl.i.dfy", "Impl/CommitterImpl.i.dfy", "Impl/DiskOpImpl.i.dfy", "BlockCacheSystem/DiskLayout.i.dfy"],
     [("FindLocationAndRequestWrite", "Impl/IOImpl.i.dfy"), ("BlockAllocator.Alloc", "Impl/BlockAllocatorImpl.i.dfy")], observe=["address, length and order of disk requests"],
     cmd="python3 checks/vb.py V05", technique=VT + "monitor of every disk request against the outstanding ones", note=VN)
prop("V06", "Corrupted disk reads never produce wrong answers",
     "Every block the store writes carries a correct checksum of its contents. If the disk returns corrupted bytes for any read, then no lookup or scan ever returns a wrong answer and no later write damages the store: at worst operations do not complete until a restart, after which everything durable is still there.",
     ["fault_sequences", "histories"], "all corrupted reads (other than checksum collisions) at any point of any history",
     "No test corrupts a block.",
     ["Impl/IOImpl.i.dfy", "Impl/MarshallingImpl.i.dfy", "Impl/JournalistParsingImpl.i.dfy", "Impl/StateSectorImpl.i.dfy", "lib/Checksums/CRC32CImpl.i.dfy"],
     [("ReadSector", "Impl/IOImpl.i.dfy"), ("ParseCheckedSector", "Impl/MarshallingImpl.i.dfy")], observe=["bytes of every write", "answers after corrupted reads"],
     cmd="python3 checks/vb.py V06", technique=VT + "fault injection on reads with independent checksum and model", note=VN)
prop("V08", "No handler traps, overflows or reads outside its data",
     "No handler of the store ever fails at run time, for any history, schedule, crash or corrupted read: no machine integer wraps around, no sequence or array is indexed outside its bounds, no absent value is used, no memory error occurs, and every loop ends.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all histories, schedules and faults, with small and with production size constants",
     "No test executes the handlers.",
     ["Impl/MainHandlers.i.dfy", "lib/DataStructures/MutableBtree.i.dfy", "lib/Buckets/PackedStringArray.i.dfy", "lib/DataStructures/LinearMutableMap.i.dfy", "lib/Lang/LinearSequence.i.dfy"],
     [H], observe=["checked arithmetic and accesses", "sanitizer reports"],
     cmd="python3 checks/vb.py V08", technique="sanitizers (address, undefined behaviour) and checked arithmetic over simulated histories", note=VN)
prop("V09", "Cache and disk space stay within their bounds",
     "The number of cached nodes, counting those being read, never exceeds the cache limit. Disk blocks no longer needed by the current, frozen or persistent tree are reused, so a store whose live contents fit keeps accepting operations indefinitely on a small device.",
     ["histories", "schedules"], "all histories that keep the live contents bounded",
     "No test runs long enough to exhaust anything.",
     ["Impl/EvictImpl.i.dfy", "Impl/DeallocImpl.i.dfy", "Impl/BlockAllocatorImpl.i.dfy", "Impl/IndirectionTable.i.dfy", "lib/DataStructures/BitmapImpl.i.dfy"],
     [("EvictOrDealloc", "Impl/EvictImpl.i.dfy"), ("Dealloc", "Impl/DeallocImpl.i.dfy")], observe=["cache size after every handler", "progress on a small device"],
     cmd="python3 checks/vb.py V09", technique=VT + "resource monitor over long histories on a 200-block device", note=VN)
prop("V10", "A freshly formatted device is a valid empty store",
     "Formatting produces blocks that lie inside the device, do not overlap and carry correct checksums. A store started on them is empty: every lookup answers the empty value and a scan returns nothing; it then behaves like any other store, crashes included.",
     ["inputs", "histories"], "all size constants and following histories",
     "No test formats a device.",
     ["Impl/Mkfs.i.dfy", "Impl/MkfsModel.i.dfy", "Impl/MarshallingImpl.i.dfy"], [("Mkfs", "Impl/Mkfs.i.dfy")], observe=["image bytes", "contents of a store started on it"],
     cmd="python3 checks/vb.py V10", technique=VT + "image monitor plus model-based run", note=VN)
prop("V11", "Cloning a key range copies it exactly",
     "After the keys with one prefix are cloned onto another prefix, every key with the new prefix reads as the corresponding old key did at that moment, keys elsewhere are unaffected, and later changes to either side do not show on the other. Clones survive crashes like other operations.",
     ["inputs", "histories", "crash_points"], "all prefixes, contents, buffering states and later operations",
     "No test executes a clone.",
     ["Impl/CloneImpl.i.dfy", "lib/Buckets/TranslationImpl.i.dfy", "lib/Buckets/TranslationLib.i.dfy", "Impl/NodeImpl.i.dfy"], [("clone", "Impl/CoordinationImpl.i.dfy"), ("CloneNewRoot", "Impl/NodeImpl.i.dfy")], observe=["lookups, scans and recovered contents after clones"],
     cmd="python3 checks/vb.py V11", technique=VT + "model-based monitor with crash injection", note=VN)

# ---- F: the hand-written C++ around the store
FW = "framework/Framework.cpp"
prop("F01", "The disk adapter performs every request exactly once",
     "Every write handed to the disk adapter reaches the device exactly once, at its address, with the bytes it had when handed over, with a bounded number in flight; it is reported done once, only after the device finished it, and its buffer stays untouched until then. Reads return the bytes on the device, waiting operations return, and a failed or short transfer is never reported as success.",
     ["schedules", "histories", "fault_sequences"], "all sequences of requests and polls, all completion orders and device errors",
     "No test links the framework; its asynchronous I/O depends on timing.",
     [FW, "framework/Framework.h"], [("DiskIOHandler", FW), ("WriteTask", FW), ("completeWriteTasks / waitForOne", FW)], observe=["system calls made by the adapter", "responses handed to the store"],
     cmd="python3 checks/fw.py F01", technique=VT + "intercepted disk calls with a simulated device, under AddressSanitizer",
     note="Held on the histories observed. Two defects found this way were repaired (known_findings.jsonl).")
prop("F02", "The application keeps its contents through crashes and kills",
     "The application's lookups and scans agree with a dictionary, including after it is reopened or its process is killed at any moment: then it holds a prefix of the accepted operations that includes everything a completed sync covered. Keys and values up to the length limits are accepted and longer ones refused.",
     ["histories", "crash_points", "inputs"], "all operation histories and kill moments, on a real file and on a simulated device",
     "No test runs the application.",
     [FW, "framework/Application.h", "framework/BundleWrapper.cpp"], [("Application", FW), ("Mkfs", FW)], observe=["results of application calls", "contents after kill and reopen"],
     cmd="python3 checks/fw.py F02", technique=VT + "model-based monitor with process kills and simulated crashes",
     note="Held on the histories observed; a kill loses no data the kernel already accepted, power loss is covered by the simulated disk of V03.")
prop("F03", "The row cache serves only current rows and evicts the oldest",
     "A row cache of fixed capacity returns for a key the value most recently stored for it as long as the key is among the most recently used ones that fit, and nothing otherwise. With the cache enabled, the application's answers stay those of the store.",
     ["histories", "inputs"], "all histories of lookups and stores, around and far beyond the capacity",
     "No test builds the row cache.", ["framework/UnverifiedRowCache.cpp", FW], [("RowCache::get / RowCache::set", "framework/UnverifiedRowCache.cpp")], observe=["results of cache and application lookups"],
     cmd="python3 checks/fw.py F03", technique=VT + "least-recently-used model with real and reduced capacities, under AddressSanitizer",
     note="Held on the histories observed; reduced capacities (from 2) come from a copy of the source with only the capacity constant changed.")
prop("F04", "Native primitives match the specifications trusted by proofs",
     "The native routines that the verified code trusts (comparing byte strings, copying arrays, packing integers little-endian, carry-less multiplication and CRC instructions, linear sequences and boxes, key ordering) compute exactly what their specifications say and touch only the memory they name.",
     ["inputs"], "all arguments allowed by the stated preconditions",
     "Proofs assume these routines; no test runs them.", ["framework/NativeArrays.h", "framework/Framework.h", "framework/LinearExtern.h", "framework/LinearBox.h", "framework/Application.h", "framework/LinearCongruentialGenerator.h"],
     [("NativePackedInts_Compile", "framework/Framework.h"), ("ByteSeqCmpByteSeq", "framework/NativeArrays.h"), ("LinearExtern", "framework/LinearExtern.h")], observe=["results and memory accesses"],
     cmd="python3 checks/fw.py F04", technique="sanitizers (address, undefined behaviour) and reference implementations on random arguments",
     note="Held on the generated arguments.")

# ---- R: executable Rust outside marshalling
BK = "Splinter/src/example/SimpleBank_v.rs"
prop("R01", "Concurrent bank transfers are atomic and conserve money",
     "Concurrent transfers and balance reads of the example bank behave as if executed one at a time in an order consistent with real time, never deadlock, and keep the total constant. A transfer succeeds exactly when both accounts exist and differ, the source holds the amount and the target can hold it, and each reply carries its request's identifier.",
     ["schedules", "inputs"], "all requests, balances, numbers of threads and interleavings",
     "No test runs the bank; its locking depends on interleavings.",
     [BK, "Splinter/src/example/BankSpec_t.rs"], [("maybe_transfer / check_value / get_total", BK)], observe=["replies and balances with their invocation and response times"],
     cmd="python3 checks/bank.py", technique=VT + "offline linearizability checker over scheduled histories, plus stress with conservation monitors",
     note="Held on the schedules observed; lock operations are the scheduling points of a seeded cooperative scheduler inside the stand-in for the verification library's lock.")
IM = "Splinter/src/implementation/Implementation_v.rs"
prop("R02", "The Rust store answers each request once, syncs when durable",
     "The sequential Rust key-value program answers each insertion, no-op and sync exactly once, with its own identifier and kind. It writes only the superblock page, has at most one such write outstanding, writes the accepted insertions in order, and answers a sync only when a completed write contains every insertion made before it; with a responsive disk every sync is answered.",
     ["histories", "schedules"], "all request histories and all orders in which requests and disk completions become ready",
     "No test runs the program; its reply and sync bookkeeping is checked by proofs that assume several steps.",
     [IM, "Splinter/src/trusted/TrustedEntry_t.rs", "Splinter/src/implementation/DiskLayout_v.rs"], [("handle_user_request / handle_disk_response / maybe_launch_superblock", IM)], observe=["requests, replies and disk requests, in order"],
     cmd="python3 checks/kv.py", technique=VT + "online trace monitor over scripted request and disk schedules",
     note="Held on the histories observed. Superblock encoding, lookups and recovery are unfinished in the repository (stubs), so they are outside; the stub encoder is replaced by one that records its argument.")
MA = "Splinter/src/exec/MiniAllocator_v.rs"
prop("R03", "The page allocator never hands out a page twice",
     "Allocating from a unit of storage yields a different page each time, always in the current unit and below its number of pages, until every page was handed out; giving the unit up and adding another starts afresh. Reserving pages leaves the set of observed pages unchanged until they are observed; allocating observes at once.",
     ["histories", "inputs"], "all units, page counts and allocation histories",
     "No test runs the executable allocator.", [MA], [("MiniAllocator / PageAllocator", MA)], observe=["addresses handed out"],
     cmd="python3 checks/mini.py", technique=VT + "uniqueness and bounds monitor over allocation histories", note="Held on the histories observed.")

# ---- D: data structures and libraries under lib/
DN = "Held on the generated histories; the generic modules are instantiated by /verif/dfyx/drv and translated to C++ with checked arithmetic, checked accesses and AddressSanitizer."
def D(id, title, stmt, quant, files, mech, observe, over=("inputs", "histories")):
    prop(id, title, stmt, list(over), quant, "No test executes the library code; its proofs are not re-run by the existing tests.", files, mech, observe=observe,
         cmd="python3 checks/lib.py " + id, technique=VT + "model-based monitor over random operation histories, under sanitizers", note=DN)
DS = "lib/DataStructures/"
D("D01", "Mutable hash maps behave like finite maps",
  "The linear and the class-based hash maps with 64-bit keys answer lookups, insertions, removals, updates and sizes exactly like a finite map, at any load and through every growth of the table. Iteration visits each entry exactly once with its current value, and clones are independent of the original.",
  "all histories of operations, keys that collide, nearly full tables", [DS + "LinearMutableMap.i.dfy", DS + "MutableMapImpl.i.dfy", DS + "LinearContentMutableMap.i.dfy"],
  [("LinearMutableMap", DS + "LinearMutableMap.i.dfy"), ("ResizingHashMap", DS + "MutableMapImpl.i.dfy")], ["results of every operation", "iterated entries"])
D("D02", "The in-memory B-tree behaves like a sorted map",
  "Lookups, insertions and extremes of the in-memory B-tree answer exactly like a sorted map, at every fan-out, depth and insertion order. Its stored order and shape stay consistent, conversions from and to sequences preserve all entries in order, and freeing a tree releases all of its memory.",
  "all histories of operations and insertion orders, several fan-outs", [DS + "MutableBtree.i.dfy", DS + "MutableBtreeBulkOperations.i.dfy", "lib/Buckets/LKMBPKVOps.i.dfy"],
  [("Insert / Query / SplitNode", DS + "MutableBtree.i.dfy"), ("ToSeq", DS + "MutableBtreeBulkOperations.i.dfy")], ["results of every operation", "tree structure"])
D("D03", "Packed string arrays and key/value packages keep every string",
  "Packing strings into one array, taking sub-ranges, splitting, appending in place and growing keeps every string and its position, and binary searches return exactly the positions a linear search would. A package of keys and values written to bytes reads back equal, and bytes from anywhere are accepted only when well formed.",
  "all lists of strings, positions, capacities, and byte strings", ["lib/Buckets/PackedStringArray.i.dfy", "lib/Buckets/PackedKV.i.dfy", "lib/Buckets/PackedKVMarshalling.i.dfy"],
  [("psaSubSeq / psaAppend / BinarySearchIndexOfFirstKeyGte", "lib/Buckets/PackedStringArray.i.dfy"), ("Marshal / Parse", "lib/Buckets/PackedKVMarshalling.i.dfy")], ["strings read back", "search positions", "parsing verdicts"])
D("D04", "Message buffers and their flushes lose or invent nothing",
  "A message buffer answers lookups like a map under insertions, splits, joins and clones, in whichever of its representations it is, and its reported weight is that of its contents. A flush moves messages to the children their keys belong to, merges them with what is there, keeps the rest in the parent, and never makes the children exceed the given space.",
  "all contents, pivots, splits and space limits", ["lib/Buckets/BucketImpl.i.dfy", "lib/Buckets/BoundedBucketListImpl.i.dfy", "lib/Buckets/BucketFlushModel.i.dfy", "lib/Buckets/LKMBPKVOps.i.dfy"],
  [("MutBucket", "lib/Buckets/BucketImpl.i.dfy"), ("PartialFlush", "lib/Buckets/BucketImpl.i.dfy")], ["contents and weights before and after each operation"])

# ---- P: the project's Python tools
def PY(id, title, stmt, quant, files, mech, observe, over=("inputs",)):
    prop(id, title, stmt, list(over), quant, "The existing tests only parse these scripts; none runs.", files, mech, observe=observe,
         cmd="python3 checks/tools.py " + id, technique=VT + "model-based monitor of the real scripts run in generated projects",
         note="Held on the generated projects. Packages absent here (cloud, plotting, terminal colours) are replaced by recording stand-ins.")
PY("P01", "The verification verdict is success only if every file verified",
  "From the verifier's outputs, the tools derive for each file whether it verified, and otherwise how it failed. The overall verdict and the published result are a success exactly when every file of the project has a complete output without any failure and no forbidden assumption; otherwise they name what failed.",
  "all projects, with any mix of per-file verifier outputs including missing and truncated ones",
  ["tools/aggregate-verchk.py", "tools/lib_aggregate.py", "tools/verichecks/report-result.py"], [("summarize / processVerchk", "tools/lib_aggregate.py"), ("reporting", "tools/verichecks/report-result.py")], ["verdict file", "exit status", "published result"])
PY("P02", "Dependencies are complete and trust rules are enforced",
  "The dependency tools compute for each source file exactly the files it includes directly and transitively, order them so that every file comes after what it includes, and emit rebuild rules that name them all. They refuse projects in which a trusted file depends on one that is not, a file's name does not say whether it is trusted, or an included file does not exist.",
  "all include graphs, including diamonds, deep chains, cycles and missing files",
  ["tools/lib_deps.py", "tools/veridepend.py"], [("visit / target list", "tools/lib_deps.py"), ("rules", "tools/veridepend.py")], ["dependency lists", "rebuild rules", "refusals"])
PY("P03", "Status pictures and build reports show each file's real state",
  "The dependency picture draws every file and every include of the project, each file in the style of its own verification status. The build report lists every file that failed with its failure, and none that did not.",
  "all projects with any mix of per-file outcomes", ["tools/dep-graph.py", "tools/gen-build-report.py"], [("dep-graph", "tools/dep-graph.py"), ("report", "tools/gen-build-report.py")], ["picture source", "report text"])
PY("P04", "Line counts attribute each line to one category",
  "The line counters give each source line of the counted files to exactly one of specification, implementation, proof or nothing (blank and comment lines), so that the totals add up, trusted files count as specification only, and generated tables show the sums of the files of each row.",
  "all source texts and all projects", ["tools/line_count_lib.py", "tools/line_counter_report_lib.py", "tools/line_counter.py"], [("count", "tools/line_count_lib.py"), ("tables", "tools/line_counter_report_lib.py")], ["counts", "tables"])
PY("P05", "Rewriting tools change only what they were asked to change",
  "Moving or renaming source files updates every include that refers to them, and nothing else, so that the project has the same include graph up to the renaming. Licence tools put exactly one current notice on each file, keep everything else and do nothing when run again; generated export lists and constant settings contain exactly the requested items.",
  "all projects, moves and file contents", ["tools/renaminator.py", "tools/license-update.py", "tools/copywriter.sh", "tools/dafny-export-set.py", "tools/run-veri-config-experiment.py"],
  [("renaminator", "tools/renaminator.py"), ("license", "tools/license-update.py"), ("splice", "tools/run-veri-config-experiment.py")], ["files before and after"])
PY("P06", "Experiment tools run every configuration once on chosen machines",
  "An experiment suite enumerates each combination of its settings exactly once. The scheduler runs every task exactly once, on the selected machines only and at most one at a time per machine; the scaling tools start or stop exactly as many of the selected machines as asked, and nothing in a dry run.",
  "all suites, machine sets, selections and failures of machine calls", ["tools/aws/suite.py", "tools/aws/automation.py", "tools/aws/scale-workers.py", "tools/aws/start-stop-worker.py", "tools/aws/describe-instances.py"],
  [("Suite / Variable", "tools/aws/suite.py"), ("filter_workers", "tools/aws/automation.py")], ["configurations", "commands sent to machines", "machines started and stopped"], over=("inputs", "schedules", "fault_sequences"))
PY("P07", "Log readers reproduce the quantities in the logs",
  "The readers of benchmark logs recover each logged quantity with its value and time, in order and without inventing samples. The profile tools attribute each measured amount to its entry, and their sums, maxima, counts, rankings and comparisons follow from the measured amounts.",
  "all logs and profiles", ["tools/plot/parser.py", "tools/profile-reader.py", "tools/dafny-profile.py"], [("parser", "tools/plot/parser.py"), ("profile", "tools/dafny-profile.py")], ["extracted quantities", "printed tables"])
PY("P08", "An experiment runs exactly the configuration its options describe",
  "The experiment runner builds the chosen system from the chosen branch with exactly the requested settings, prepares the store, memory limit and page cache, runs the requested workloads once within the time budget, and puts the output in a new results file. Contradictory or unknown options and failed preparations run nothing. The fleet tools send each command once, to distinct selected machines, and nothing in a dry run.",
  "all option lists, failing steps and machine sets", ["tools/run-veri-config-experiment.py", "tools/aws/automation.py", "tools/aws/launch-experiments.py", "tools/aws/launch-ycsb-benchmarks.py", "tools/aws/row-cache-experiment.py", "tools/aws/launch-btree.py", "tools/aws/kill-jobs.py", "tools/aws/run-all.py", "tools/aws/pull-results.py", "tools/aws/shell.py"],
  [("main", "tools/run-veri-config-experiment.py"), ("launch_worker_pipes", "tools/aws/automation.py")], ["commands given to the system", "state of the build and the store when the experiment starts", "processes left", "results files"], over=("inputs", "fault_sequences"))
PY("P09", "The published plots and numbers show what the result files say",
  "Every curve, bar and number that the plotting tools publish is computed from the measurements of the named experiment alone, and stands at the operation count, size or definition at which it was measured, in the plot and under the label of its experiment. Missing measurements are left out, not invented. Verification times leave out the workers whose outlying times betray them, and the reported totals, slowest definitions, percentiles and shares follow from the rest.",
  "all result files", ["tools/plot/perf-compare.py", "tools/plot/PlotHelper.py", "tools/plot/plot-verification-time.py", "tools/plot/plot-linear-experiments.py"], [("plot", "tools/plot/PlotHelper.py"), ("verification times", "tools/plot/plot-verification-time.py"), ("b-tree comparison", "tools/plot/plot-linear-experiments.py")], ["drawn curves and bars", "printed and written numbers"])

# ---- Y: the benchmark drivers
def YB(id, title, stmt, quant, files, mech, observe, note, over=("inputs", "histories")):
    prop(id, title, stmt, list(over), quant, "The existing tests neither build nor run the benchmark drivers.", files, mech, observe=observe,
         cmd="python3 checks/bench.py " + id, technique=VT + "trace monitor of the real driver over modelled stores in simulated time, under sanitizers", note=note)
YB("Y01", "The YCSB driver does to the store exactly what the workload says",
   "Each record and operation the workload generator hands out leads to exactly one matching request to the chosen store, with the generated key, value and length, and writes are synced at the end of each phase and whenever, and only when, a configured interval is over. The reported counts, latencies, durations and throughputs are those of the requests made; a store declared as preloaded is not loaded again, workloads that are not supported are refused before they touch the store, and a store that reports a failure ends the run.",
   "all workloads, options, sync intervals and request durations, for each of the four stores", ["ycsb/YcsbMain.cpp", "ycsb/wrappers/ycsbwrappers.cpp", "ycsb/wrappers/ycsbwrappers.h"],
   [("YcsbExecution", "ycsb/YcsbMain.cpp"), ("store facades", "ycsb/YcsbMain.cpp"), ("transactions", "ycsb/wrappers/ycsbwrappers.cpp")], ["requests to the store", "printed reports"],
   "Held on the generated workloads. The workload generator, the histogram library, the clock and the other stores, all absent here, are replaced by recording stand-ins.", over=("inputs", "histories", "schedules"))
YB("Y02", "The built-in benchmarks run, check and count what they report",
   "Each built-in benchmark formats the named store unless told not to, performs the announced kind and number of operations, expects exactly the answers a correct store gives after a crash that loses what was not synced, and fails when a scan answers wrongly. The reported numbers of operations, times and rates, and those of the named stopwatches, are the ones that occurred; unknown options and benchmarks are refused without touching a store.",
   "all benchmarks, command lines, request durations and wrong answers", ["framework/Benchmarks.cpp", "framework/Main.cpp", "framework/Application.h"],
   [("benchmarks", "framework/Benchmarks.cpp"), ("stopwatches", "framework/Benchmarks.cpp"), ("command line", "framework/Main.cpp")], ["requests to the store", "expected answers", "printed reports"],
   "Held on the runs observed; the store is a model and time is simulated.")

# ---- S: the state machines of the Rust tree
def SM(id, title, stmt, files, mech, observe, note, over=("histories", "inputs")):
    prop(id, title, stmt, list(over), "all histories of the state machines from their initial states",
         "The existing tests verify only the storage formats and a few helper modules, not the state machines and not that they can take the steps they should.", files, mech, observe=observe,
         cmd="python3 checks/splinter.py " + id, technique=VT + "the state machine definitions executed by a translator, every step judged by an independent trace oracle and by the refined machine", note=note)
SM("S01", "The journal machines keep, read and discard exactly the right messages",
   "A put appends its messages and nothing else; marshalling the tail and allocation steps keep the journal's contents, freezing and reading give exactly the messages of an interval of it, discarding drops exactly those below the new boundary, and a restart continues from what was frozen. Records that are still needed stay reachable and unchanged, and their allocation units are neither handed out again nor freed. Each step that should be possible is, and is a step of the layers above, down to a sequence of messages.",
   ["Splinter/src/journal/LinkedJournal_v.rs", "Splinter/src/journal/PagedJournal_v.rs", "Splinter/src/allocation_layer/AllocationJournal_v.rs", "Splinter/src/allocation_layer/LikesJournal_v.rs", "Splinter/src/allocation_layer/MiniAllocator_v.rs", "Splinter/src/abstract_system/AbstractJournal_v.rs", "Splinter/src/abstract_system/MsgHistory_v.rs"],
   [("transitions", "Splinter/src/journal/LinkedJournal_v.rs"), ("lsn index and allocator", "Splinter/src/allocation_layer/AllocationJournal_v.rs"), ("interpretations", "Splinter/src/journal/LinkedJournalRefinement_v.rs")], ["state before and after each step", "labels"],
   "Held on the histories executed, over few allocation units and short journals. Where the translator cannot evaluate a definition, the step is left unjudged.")
SM("S02", "The tree machines answer by the newest messages; upkeep keeps contents",
   "A put changes exactly the values its messages say, and a query answers with the fold of the newest messages for its key in the memtable and along the path to the key's leaf. Flushing the memtable, growing, splitting, flushing to a child and compacting change no answer, overwrite no page that is in use and keep the tree well-formed; freezing gives a tree with the current contents. Each step that should be possible is, and is a step of the layers above, down to a map.",
   ["Splinter/src/betree/LinkedBetree_v.rs", "Splinter/src/betree/FilteredBetree_v.rs", "Splinter/src/betree/PivotBetree_v.rs", "Splinter/src/betree/PagedBetree_v.rs", "Splinter/src/betree/PivotTable_v.rs", "Splinter/src/betree/Memtable_v.rs", "Splinter/src/betree/BufferOffsets_v.rs", "Splinter/src/abstract_system/AbstractMap_v.rs", "Splinter/src/spec/Messages_t.rs"],
   [("transitions", "Splinter/src/betree/LinkedBetree_v.rs"), ("interpretations", "Splinter/src/betree/LinkedBetreeRefinement_v.rs"), ("interpretations", "Splinter/src/betree/FilteredBetreeRefinement_v.rs"), ("interpretations", "Splinter/src/betree/PivotBetreeRefinement_v.rs")], ["state before and after each step", "labels"],
   "Held on the histories executed, over five keys and trees up to six levels deep. Where the translator cannot evaluate a definition, the step is left unjudged.")
SM("S03", "Reference counts equal the references, so no used unit is freed",
   "After every step of the tree, the counts kept for pages and for allocation units equal the number of references that the tree's nodes hold to them, from the empty tree on. Whatever is still referred to therefore stays in use and none of it is lost. Each step of the tree that should be possible is possible with the counts.",
   ["Splinter/src/allocation_layer/LikesBetree_v.rs", "Splinter/src/allocation_layer/AllocationBetree_v.rs", "Splinter/src/allocation_layer/Likes_v.rs", "Splinter/src/betree/LinkedBetree_v.rs"],
   [("transitions", "Splinter/src/allocation_layer/LikesBetree_v.rs"), ("transitions", "Splinter/src/allocation_layer/AllocationBetree_v.rs")], ["counts before and after each step", "references in the tree"],
   "Held on the histories executed, over five keys and trees up to six levels deep. Where the translator cannot evaluate a definition, the step is left unjudged.")
SM("S04", "The journal and the map together survive crashes: synced puts are never lost",
   "At every point the persistent journal and map, those in flight and those in memory hold what the executed puts say, so that after a crash and recovery the store is the result of all puts up to a point no earlier than any answered sync. Queries answer from all executed puts, every request is executed and answered at most once, and commits can start, land and complete. Each step is a step of the crash-tolerant map that is the specification.",
   ["Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs", "Splinter/src/abstract_system/AbstractCrashAwareJournal_v.rs", "Splinter/src/abstract_system/AbstractCrashAwareMap_v.rs", "Splinter/src/abstract_system/AbstractJournal_v.rs", "Splinter/src/abstract_system/AbstractMap_v.rs", "Splinter/src/abstract_system/MsgHistory_v.rs", "Splinter/src/spec/FloatingSeq_t.rs", "Splinter/src/spec/MapSpec_t.rs"],
   [("transitions", "Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs"), ("interpretation", "Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs"), ("specification", "Splinter/src/spec/MapSpec_t.rs")], ["state before and after each step", "requests, replies and syncs"],
   "Held on the histories executed, over four keys and short logs. Where the translator cannot evaluate a definition, the step is left unjudged.", over=("histories", "crash_points"))
SM("S05", "The program and its disk are a crash-tolerant map that recovers what was synced",
   "With requests, superblock reads and writes, recoveries and crashes in any order, the program recovers exactly the version of the store its disk holds, serves nothing before, executes each accepted request once with the answer of the current store, has one superblock write in flight at a time that holds the newest version under its number, and answers a sync only when its version is on the disk. A crash keeps nothing but the disk. Each step that should be possible is, and is a step of the crash-tolerant map under the label that stands for it.",
   ["Splinter/src/trusted/SystemModel_t.rs", "Splinter/src/trusted/RefinementObligation_t.rs", "Splinter/src/implementation/AtomicState_v.rs", "Splinter/src/implementation/ConcreteProgramModel_v.rs", "Splinter/src/implementation/DiskLayout_v.rs", "Splinter/src/implementation/ModelRefinement_v.rs", "Splinter/src/implementation/MultisetMapRelation_v.rs", "Splinter/src/spec/AsyncDisk_t.rs", "Splinter/src/spec/MapSpec_t.rs", "Splinter/src/spec/FloatingSeq_t.rs"],
   [("transitions of the program", "Splinter/src/implementation/AtomicState_v.rs"), ("the system", "Splinter/src/trusted/SystemModel_t.rs"), ("the disk", "Splinter/src/spec/AsyncDisk_t.rs"), ("interpretation", "Splinter/src/implementation/ModelRefinement_v.rs")], ["state before and after each step", "disk requests, responses and contents"],
   "Held on the histories executed, over three keys. The superblock's byte image is a table (marshall and unmarshall have no definition in the tree). Known: the program may answer a sync nobody asked.", over=("histories", "crash_points", "schedules"))
SM("S06", "The page cache loses no write; the journal stored through it survives crashes",
   "Each address sits in at most one cache slot; a read gives the last page written there. A page counts as clean only when the disk holds it, is evicted only then, has at most one request under way, and no accepted write is lost while the system runs. The journal, read through cache and disk, always consists of the messages put and not discarded; a frozen image is wholly on the disk, so that after a crash at any point the journal starts again from it with the same messages. Each step that should be possible is, and is a step of the journal below.",
   ["Splinter/src/implementation/Cache_v.rs", "Splinter/src/implementation/CachedJournal_v.rs", "Splinter/src/implementation/JournalCoordinationSystem_v.rs", "Splinter/src/implementation/JournalCoordinationRefinement_v.rs", "Splinter/src/implementation/JournalModel_v.rs", "Splinter/src/spec/AsyncDisk_t.rs"],
   [("the cache's transitions", "Splinter/src/implementation/Cache_v.rs"), ("the journal over the cache", "Splinter/src/implementation/CachedJournal_v.rs"), ("the composition", "Splinter/src/implementation/JournalCoordinationSystem_v.rs"), ("interpretation", "Splinter/src/implementation/JournalCoordinationRefinement_v.rs")], ["state before and after each step", "disk requests, responses and contents"],
   "Held on the histories executed, over twelve addresses, up to eight slots and short journals. A page's byte image is a table (the conversions have no definition in the tree). A caller that marshals onto a page of the last committed image is outside the model.", over=("histories", "crash_points", "schedules"))
SM("S07", "B+tree branches keep their keys, pages and units, on pages as in memory",
   "Inserting, appending, growing and splitting give a branch exactly the contents they say, with sorted nodes whose keys lie within their pivots, on pages that were free, and every query answers from them. The branch on pages stands for the same tree in memory, which stands for the same map. While it is built a branch owns the allocation units it was given and reserves exactly the pages of its tree; sealed, it keeps exactly the units its pages are in, names them in its summary, gives back the others, and serves as a buffer with the same contents. Each operation that should be possible is.",
   ["Splinter/src/betree/LinkedBranch_v.rs", "Splinter/src/betree/LinkedBranch_v/Refinement_v.rs", "Splinter/src/betree/PivotBranch_v.rs", "Splinter/src/betree/PivotBranchRefinement_v.rs", "Splinter/src/allocation_layer/AllocationBranch_v.rs", "Splinter/src/allocation_layer/MiniAllocator_v.rs", "Splinter/src/spec/KeyType_t.rs", "Splinter/src/betree/Utils_v.rs"],
   [("operations on pages", "Splinter/src/betree/LinkedBranch_v.rs"), ("operations in memory", "Splinter/src/betree/PivotBranch_v.rs"), ("building and sealing", "Splinter/src/allocation_layer/AllocationBranch_v.rs"), ("interpretation", "Splinter/src/betree/LinkedBranch_v/Refinement_v.rs")], ["branch before and after each operation", "allocation units"],
   "Held on the histories executed, over fourteen keys and trees up to five levels deep. Inserting and growing are no building steps of AllocationBranch yet; the driver mixes them in. Where the translator cannot evaluate a definition, the step is left unjudged.")

prop("G01", "The Dafny tree and cache layers refine the map specification",
     "Every transition of the Dafny ghost state machines (trees, caches, journals and their composition) corresponds under its interpretation function to transitions of the layer above, down to a crash-tolerant map.",
     ["histories", "crash_points"], "all states and transitions of the ghost state machines",
     "The existing tests resolve these files and prove nothing about them.",
     ["PivotBetree/PivotBetree.i.dfy", "BlockCacheSystem/BetreeCache.i.dfy", "ByteBlockCacheSystem/ByteCache.i.dfy"],
     [("state machines and refinement proofs", "PivotBetree/PivotBetree.i.dfy")], observe=["nothing executes"],
     na="Ghost code: it is erased before compilation and quantifies over unbounded maps and sets, so no execution exists to monitor; that is a proof obligation. What these layers promise about running code is judged by V01 to V06 against independent models, and the corresponding Rust machines by S01 to S07.")
