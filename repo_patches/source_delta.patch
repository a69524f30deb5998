From f37607af714682b958dc5315a2fed1cc936ca816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 01/15] fix: resizable-seq parsing must refuse an oversized
 stored length before allocating for it

---
 Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
index 87f6ff5..ff1bdec 100644
--- a/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
+++ b/Splinter/src/marshalling/ResizableUniformSizedSeq_v.rs
@@ -528,6 +528,12 @@ impl<EltFormat: Marshal + UniformSized, LenType: IntFormattable>
         match self.try_length(dslice, data) {
             None => { None },
             Some(len) => {
+                if self.max_length < len {
+                    // The stored length describes more elements than the allocation can hold. Refuse it
+                    // before asking the allocator for that much space.
+                    assert( !self.gettable(dslice@.i(data@), len as int - 1) );  // trigger
+                    return None;
+                }
                 let mut i: usize = 0;
                 let mut result:Vec<EltFormat::U> = Vec::with_capacity(len);
                 while i < len
-- 
2.43.0


From 22655d4abd429a13af532fbe61ca01b7c0884c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 02/15] fix: completeWriteTasks must start waiting writes once
 all started ones are done

---
 framework/Framework.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index 478e4e8..c6af2bc 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -407,7 +407,9 @@ namespace MainDiskIOHandler_Compile {
       }
       if (i == 0) {
         if (any_not_started) {
-          fail("completeWriteTasks: any_not_started");
+          // every write that was started has finished in the meantime
+          maybeStartWriteReq();
+          continue;
         }
         break;
       }
-- 
2.43.0


From 86496cb71b5b45ff1664b1c09fd3b420570942d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 03/15] fix: DiskIOHandler must wait for writes in progress
 before freeing their buffers

---
 framework/Framework.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/framework/Framework.cpp b/framework/Framework.cpp
index c6af2bc..8c3e545 100644
--- a/framework/Framework.cpp
+++ b/framework/Framework.cpp
@@ -253,6 +253,19 @@ namespace MainDiskIOHandler_Compile {
   }
 
   DiskIOHandler::~DiskIOHandler() {
+    // Writes in progress still use their buffers and control blocks.
+    for (auto& p : writeReqs) {
+      if (!p.second->made_req) {
+        nWriteReqsWaiting--;
+        continue;
+      }
+      while (!p.second->done) {
+        aiocb* aiolist[1] = { &p.second->aio_req_write };
+        aio_suspend(aiolist, 1, NULL);
+        p.second->check_if_complete();
+      }
+    }
+
     if (0 <= fd)
       close(fd);
   }
-- 
2.43.0


From 3a3ef9778b464d939059b81fe3d3cec7a18d24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 04/15] fix: report undeclared trustedness instead of failing
 with a NameError

---
 tools/lib_deps.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/lib_deps.py b/tools/lib_deps.py
index 6a60724..76432ac 100644
--- a/tools/lib_deps.py
+++ b/tools/lib_deps.py
@@ -130,6 +130,17 @@ def includePaths(iref):
         irefs.append(subIref)
     return irefs
 
+class UndeclaredTrustedness(Exception):
+    def __init__(self, iref):
+        self.iref = iref
+
+    def msg(self):
+        return "Included file is neither .s.dfy nor .i.dfy: '%s' referenced from '%s'" % (
+                self.iref.raw_reference, self.iref.describeOrigin())
+
+    def __str__(self):
+        return self.msg()
+
 class IncompatibleIncludeTrustedness(Exception):
     def __init__(self, i_file, s_file):
         self.s_file = s_file
-- 
2.43.0


From 0c4adb94f1977b9973b2c5285c0fac8aec758295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 05/15] fix: select each worker once even if several patterns
 match it

---
 tools/aws/automation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/aws/automation.py b/tools/aws/automation.py
index 2a36aaa..bf7d52b 100644
--- a/tools/aws/automation.py
+++ b/tools/aws/automation.py
@@ -53,6 +53,7 @@ def filter_workers(workers, regexes):
         for regex in regexes:
             if re.search(regex, w["Name"]) is not None:
                 filtered_workers = filtered_workers + [w]
+                break
     return filtered_workers
 
 def retrieve_running_workers(workers_file=".awsworkers", ssd=False):
-- 
2.43.0


From 9bfb34af3ad8fef18764f1b0d88406fe740ba908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:16 +0000
Subject: [PATCH 06/15] fix: a benchmark run with only a time-based sync
 interval syncs after every write

After the first sync, next_sync_ops became the index of the current operation
when no operation-based interval is configured, so every later write was
followed by a sync.
---
 ycsb/YcsbMain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ycsb/YcsbMain.cpp b/ycsb/YcsbMain.cpp
index 20c9ae3..a8abcfb 100644
--- a/ycsb/YcsbMain.cpp
+++ b/ycsb/YcsbMain.cpp
@@ -328,7 +328,8 @@ public:
         record_duration(sync_latency_hist, sync_started, sync_completed);
         have_done_insert_since_last_sync = false;
         next_sync = sync_completed + max_sync_interval;
-        next_sync_ops = i + max_sync_interval_ops;
+        if (0 < max_sync_interval_ops)
+          next_sync_ops = i + max_sync_interval_ops;
         
         malloc_accounting_status();
 #ifdef _YCSB_VERIBETRFS
-- 
2.43.0


From c60629503379df4efbe554916e140c724d342561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 07/15] fix: do not drop log_stats and use_unverified_row_cache
 from the build options

---
 tools/run-veri-config-experiment.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tools/run-veri-config-experiment.py b/tools/run-veri-config-experiment.py
index c979dd4..b2ce59a 100755
--- a/tools/run-veri-config-experiment.py
+++ b/tools/run-veri-config-experiment.py
@@ -280,8 +280,6 @@ def main():
   if use_unverified_row_cache:
     make_options += "WANT_UNVERIFIED_ROW_CACHE=true "
 
-  make_options = ""
-  
   if veri_o_direct == True:
       make_options = make_options + " WANT_O_DIRECT=true "
   
-- 
2.43.0


From 88924e7b339adf6ae37449aa1af4bd307c395835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 08/15] fix: the experiment runner works without a ram= option

---
 tools/run-veri-config-experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/run-veri-config-experiment.py b/tools/run-veri-config-experiment.py
index b2ce59a..1b20692 100755
--- a/tools/run-veri-config-experiment.py
+++ b/tools/run-veri-config-experiment.py
@@ -117,7 +117,7 @@ def main():
   archive_dir = "/mnt/xvde/archives"
   workload = None
   device = None
-  mem = None
+  ram = None
   value_updates = []
   config = None
   log_stats = False
-- 
2.43.0


From 605a0b482aa3d2ecf92344ae943191d24668b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:43 +0000
Subject: [PATCH 09/15] fix: stop the whole experiment when its time budget
 expires

---
 tools/run-veri-config-experiment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/run-veri-config-experiment.py b/tools/run-veri-config-experiment.py
index 1b20692..878c0ce 100755
--- a/tools/run-veri-config-experiment.py
+++ b/tools/run-veri-config-experiment.py
@@ -344,9 +344,9 @@ def main():
   actuallyprint("experiment pid %d pgid %d" % (proc.pid, proc_grp_id))
   try:
     ret = proc.wait(timeout = time_budget_sec)
-  except TimeoutExpired:
-    actuallyprint("timeout expired (%ds); killing" % time_budget_set)
-    proc.kill()
+  except subprocess.TimeoutExpired:
+    actuallyprint("timeout expired (%ds); killing" % time_budget_sec)
+    os.killpg(proc_grp_id, signal.SIGKILL)
     ret = proc.wait(timeout = 10)
 
   actuallyprint("main blktrace stop");
-- 
2.43.0


From 2c4f02bbbc031bcfd03316c3030469bdb91d84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 10/15] fix: do not run an experiment on a store that could not
 be prepared

---
 tools/run-veri-config-experiment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/run-veri-config-experiment.py b/tools/run-veri-config-experiment.py
index 878c0ce..da487a2 100755
--- a/tools/run-veri-config-experiment.py
+++ b/tools/run-veri-config-experiment.py
@@ -318,11 +318,13 @@ def main():
 
   if from_archive:
     if rocks:
-      os.system("cp -a " + from_archive + "/* " + datadir + "/")
+      ret = os.system("cp -a " + from_archive + "/* " + datadir + "/")
     else:
-      os.system("cp -a " + from_archive + " " + loc)
+      ret = os.system("cp -a " + from_archive + " " + loc)
+    assert ret == 0
   elif veri:
-      os.system("head -c 17179869184 /dev/zero > " + loc)
+      ret = os.system("head -c 17179869184 /dev/zero > " + loc)
+      assert ret == 0
       
   clear_page_cache()
 
-- 
2.43.0


From 28628420d0467669547322a1f6f50fb1d8f06bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 11/15] fix: compare every branch of the b-tree experiments
 over the same sizes

---
 tools/plot/plot-linear-experiments.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/plot/plot-linear-experiments.py b/tools/plot/plot-linear-experiments.py
index 3c56898..0af99eb 100755
--- a/tools/plot/plot-linear-experiments.py
+++ b/tools/plot/plot-linear-experiments.py
@@ -73,17 +73,17 @@ def plot(data):
 
     def plot_case(ax, mode, label, want_xlabel):
         num_cases = len(data.values())
+        # every branch's bars stand over the same sizes, whichever order its results came in
+        sizes = sorted(set().union(*[exp.cases[mode].sizes() for exp in data.values()]))
         for expi, exp in enumerate(data.values()):
             case = exp.cases[mode]
-            sizes = case.sizes()
-
-            xpos = range(len(sizes))
+            xpos = [i for i in range(len(sizes)) if sizes[i] in case.data]
             rates = [case.rate_mean(sizes[i])/1000 for i in xpos]
             errs = [case.rate_stddev(sizes[i])/1000 for i in xpos]
 
             line = ax.bar([x+width*expi for x in xpos], rates, yerr=errs, width=width)
             line.set_label(exp.branch())
-        ax.set_xticks([x + width*(num_cases-1)/2 for x in xpos])
+        ax.set_xticks([x + width*(num_cases-1)/2 for x in range(len(sizes))])
         prettySizes = ["%d" % (size/(1000000)) for size in sizes]
         ax.set_xticklabels(prettySizes)
         if want_xlabel:
-- 
2.43.0


From ed0d571b33c10299f86bea631c0b66bbef5e0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 12/15] fix: let a commit start: take the journal's step in
 CoordinationSystem.commit_start

The transition required CrashTolerantJournal to take its commit_start step
from the journal to itself. That step records the frozen journal as in
flight, which requires that there was none, so no commit could ever start
and no sync could ever be answered. As in the Dafny original, the journal
moves to a new state.
---
 .../abstract_system/AbstractCrashAwareSystemRefinement_v.rs   | 2 +-
 Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
index 5a66632..04fd89e 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystemRefinement_v.rs
@@ -723,7 +723,7 @@ verus! {
             v.inv(),
             CoordinationSystem::State::next(v, vp, label),
             CoordinationSystem::State::next_by(v, vp, label, step),
-            matches!(step, CoordinationSystem::Step::commit_start(_)),
+            matches!(step, CoordinationSystem::Step::commit_start(_, _)),
         ensures
             vp.inv()
     {
diff --git a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
index c1f7e24..afdb4cd 100644
--- a/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
+++ b/Splinter/src/abstract_system/AbstractCrashAwareSystem_v.rs
@@ -527,6 +527,7 @@ state_machine!{ CoordinationSystem {
     commit_start(
       label: Label,
       new_boundary_lsn: LSN,
+      new_journal: CrashTolerantJournal::State,
     ) {
       require pre.ephemeral is Some;
       let pre_ephemeral = pre.ephemeral.get_Some_0();
@@ -536,7 +537,7 @@ state_machine!{ CoordinationSystem {
 
       require CrashTolerantJournal::State::next(
         pre.journal,
-        pre.journal,
+        new_journal,
         CrashTolerantJournal::Label::CommitStartLabel {
           new_boundary_lsn: new_boundary_lsn,
           max_lsn: pre_ephemeral.map_lsn,
@@ -551,6 +552,7 @@ state_machine!{ CoordinationSystem {
         }
       );
 
+      update journal = new_journal;
       update superblock_in_flight = true;
 
       // ephemeral unchanged
-- 
2.43.0


From 9dc584e43fe64e9ff3b1f105ebd54d48492743cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 13/15] fix: Cache.writeback_initiate takes at most one write
 request per page

---
 Splinter/src/implementation/Cache_v.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Splinter/src/implementation/Cache_v.rs b/Splinter/src/implementation/Cache_v.rs
index 0b7121e..dd12215 100644
--- a/Splinter/src/implementation/Cache_v.rs
+++ b/Splinter/src/implementation/Cache_v.rs
@@ -214,6 +214,7 @@ state_machine!{ Cache {
         require !requests.is_empty();
         require responses == empty_responses();
 
+        require requests.is_injective();
         require requests.dom().disjoint(pre.outstanding_reqs.dom());
         require pre.valid_writeback_requests(requests);
 
-- 
2.43.0


From 897cc102539e7aa7055ec7125ffd0f8e6cfe0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:47 +0000
Subject: [PATCH 14/15] fix: JournalCoordinationSystem.put adds the messages to
 the journal

---
 .../src/implementation/JournalCoordinationSystem_v.rs  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Splinter/src/implementation/JournalCoordinationSystem_v.rs b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
index 8df8b14..60641ec 100644
--- a/Splinter/src/implementation/JournalCoordinationSystem_v.rs
+++ b/Splinter/src/implementation/JournalCoordinationSystem_v.rs
@@ -187,10 +187,11 @@ state_machine!{ JournalCoordinationSystem{
         require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
     }}
 
-    transition!{ put(lbl: Label) {
+    transition!{ put(lbl: Label, new_journal: CachedJournal::State) {
         require let Label::Put{messages} = lbl;
         let journal_lbl = CachedJournal::Label::Put{messages};
-        require CachedJournal::State::next(pre.journal, pre.journal, journal_lbl);
+        require CachedJournal::State::next(pre.journal, new_journal, journal_lbl);
+        update journal = new_journal;
     }}
 
     transition!{ discard_old(lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) {
@@ -363,7 +364,10 @@ state_machine!{ JournalCoordinationSystem{
     fn query_end_lsn_inductive(pre: Self, post: Self, lbl: Label) { }
    
     #[inductive(put)]
-    fn put_inductive(pre: Self, post: Self, lbl: Label) { }
+    fn put_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State) {
+        reveal(CachedJournal::State::next);
+        reveal(CachedJournal::State::next_by);
+    }
    
     #[inductive(discard_old)]
     fn discard_old_inductive(pre: Self, post: Self, lbl: Label, new_journal: CachedJournal::State, discard_addrs: Set<Address>) 
-- 
2.43.0


From eba5b529a4b8b7e917030178550711562e1a8bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:09 +0000
Subject: [PATCH 15/15] fix: a branch contains the keys it has a message for,
 not the keys it has none for (BranchNode::linked_contains)

---
 Splinter/src/allocation_layer/AllocationBranch_v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Splinter/src/allocation_layer/AllocationBranch_v.rs b/Splinter/src/allocation_layer/AllocationBranch_v.rs
index 840468a..0b95192 100644
--- a/Splinter/src/allocation_layer/AllocationBranch_v.rs
+++ b/Splinter/src/allocation_layer/AllocationBranch_v.rs
@@ -28,7 +28,7 @@ pub type BranchNode = Node<Summary>;
 impl Buffer for BranchNode {
     open spec fn linked_contains(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> bool 
     {
-        self.linked_query(dv, addr, key) == Message::Update{ delta: nop_delta() }
+        self.linked_query(dv, addr, key) != Message::Update{ delta: nop_delta() }
     }
 
     open spec fn linked_query(self, dv: BufferDisk<Self>, addr: Address, key: Key) -> Message 
-- 
2.43.0

