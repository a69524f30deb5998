def vd(mode, cats, secs=40, seeds="101 102 103 104 105 106 107 108"):
    return f'exec python3 "$here/vdemo.py" {mode} {cats} {secs} {seeds}'
S = []
def v(id, prop, edits, needs, breaks, demo):
    S.append({"id": id, "property": prop, "kit": "v", "edits": edits, "needs": needs, "breaks": breaks, "demo": demo})
v("V01-slack", "V01", [("lib/Buckets/PackedKV.i.dfy", "            dresult.AppendPkv(bot, bot_from, PKV.NumKVPairs(bot));\n            result := SlackExhausted(dresult.toPkv(), from, slack);\n            // Buck", "            dresult.AppendPkv(bot, if bot_from < PKV.NumKVPairs(bot) then bot_from + 1 else bot_from, PKV.NumKVPairs(bot));\n            result := SlackExhausted(dresult.toPkv(), from, slack);\n            // Buck")],
  "a flush that fills the child up before all of the parent's messages fit",
  "the child entry next to the first message that no longer fits is lost", vd("dict", "QUERY,SCAN,TRAP"))
v("V02-upto", "V02", [("Impl/SuccImpl.i.dfy", "var k: Key := if c < 0 then upTo.value else ub;", "var k: Key := if c <= 0 || children.None? then upTo.value else ub;")],
  "a leaf whose own last pivot is smaller than the bound inherited from its ancestors",
  "a scan that ends inside such a leaf reports the ancestor's larger bound as covered and leaves out the entries of the next leaf buckets", vd("scan", "SCAN"))
v("V03-onewrite", "V03", [("Impl/CommitterImpl.i.dfy", """        } else if (self.outstandingJournalWrites == {}) {
          inout self.writeOutSuperblockAdvanceLocation(io);""", """        } else if (|self.outstandingJournalWrites| as uint64 <= 1) {
          inout self.writeOutSuperblockAdvanceLocation(io);""")],
  "a crash after the superblock of a checkpoint reached the disk while one journal write had not",
  "the superblock names journal blocks that are not on disk: recovery fails or replays stale entries", vd("crash", "CRASH,DISK,TRAP"))
v("V03-freeze", "V03", [("Impl/CoordinationImpl.i.dfy", "    } else if s.jc.superblockWrite.Some? {\n      wait := true;", "    } else if s.jc.superblockWrite.Some? && !graphSync {\n      wait := true;")],
  "a checkpoint sync that freezes while the superblock write of an earlier log sync is still in flight, then a crash",
  "the pending checkpoint sync is acknowledged by the older superblock although its operations are not durable", vd("crash", "CRASH"))
v("V04-wrapsync", "V04", [("Impl/CommitterImpl.i.dfy", "      if doingFrozen {\n        inout self.frozenJournalPosition := self.journalist.getWrittenJournalLen();\n      } else {", "      if doingFrozen {\n        inout self.frozenJournalPosition := self.journalist.getWrittenJournalLen();\n      } else if contiguous {")],
  "a log sync whose journal write wraps around the end of the journal", "that sync never completes unless later operations write the journal again", vd("sync", "LIVE,SYNC", 60))
v("V05-wrapstart", "V05", [("Impl/CommitterImpl.i.dfy", "      if a + b >= NumJournalBlocks()\n        then", "      if a + b > NumJournalBlocks()\n        then")],
  "a journal write that ends exactly at the last journal block", "the next journal write starts one block past the journal", vd("crash", "DISK,CRASH,TRAP,LIVE,SUM"))
v("V05-outstanding", "V05", [("Impl/SyncImpl.i.dfy", "    inout s.blockAllocator.MarkUsedOutstanding(loc.addr / NodeBlockSizeUint64());", "    if s.frozenIndirectionTable.lSome? {\n      inout s.blockAllocator.MarkUsedOutstanding(loc.addr / NodeBlockSizeUint64());\n    }")],
  "a dirty node written for eviction, changed again and written again before the first write completes", "two writes to the same block are outstanding at once", vd("disk", "DISK"))
v("V06-journal", "V06", [("Impl/JournalistParsingImpl.i.dfy", "    if c == s[i .. i + 32] {", "    if c == s[i .. i + 32] || (i > 0 && c[..2] == s[i .. i + 2]) {")],
  "a corrupted journal block, not the first of its read, whose checksum agrees in its first two bytes", "a corrupted block is replayed", vd("corrupt", "CORRUPT,TRAP,CRASH", 100))
v("V09-scan", "V09", [("Impl/SuccImpl.i.dfy", "if CacheImpl.CacheCount(s.cache) + |s.outstandingBlockReads| as uint64 <= MaxCacheSizeUint64() - 1 {", "if CacheImpl.CacheCount(s.cache) <= MaxCacheSizeUint64() - 1 {")],
  "scans of several ranges in progress at once while the cache is almost full", "scan reads are issued beyond the cache bound", vd("disk", "CACHE"))
v("V09-leak", "V09", [("Impl/IOImpl.i.dfy", "    inout s.blockAllocator.MarkFreeOutstanding(locIdx);\n", "    if !s.frozenIndirectionTable.lSome? {\n      inout s.blockAllocator.MarkFreeOutstanding(locIdx);\n    }\n")],
  "many node writes that complete while a checkpoint is being written, on a small device", "the blocks are never free again: the device fills up", vd("space", "LIVE,CACHE", 40))
v("V11-lastslot", "V11", [("Impl/NodeImpl.i.dfy", "        end := Pivots.ComputeRoute(node.pivotTable, fromend.e);\n        end := end + 1;", "        end := Pivots.ComputeRoute(node.pivotTable, fromend.e);\n        end := if end < lseq_length_as_uint64(node.buckets) - 1 then end + 1 else end;")],
  "a clone whose source range ends in the last child slot of the root, with unflushed operations on that range",
  "the copy misses the newest operations on the source", vd("clone", "QUERY,SCAN,CRASH"))
