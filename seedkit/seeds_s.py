HEAD = '''t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
export SP_REPO=$PWD PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
'''
def D(prop, secs=25): return HEAD + f'''for s in 1 2 3 4 5 6; do timeout 120 python3 "$here/work.py" {prop} $s {secs} > "$t/out.$s" 2>&1 & done; wait
if grep -qh '"violations": \\["[^F]' "$t"/out.*; then grep -h -o '"violations": .*' "$t"/out.* | cut -c1-900; exit 1; fi
grep -qh '^RESULT' "$t"/out.* || {{ cat "$t"/out.*; exit 2; }}'''
A, B, AB, I = "Splinter/src/allocation_layer/", "Splinter/src/betree/", "Splinter/src/abstract_system/", "Splinter/src/implementation/"
def s(id, prop, f, old, new, needs, breaks): return dict(id=id, property=prop, kit="sp", edits=[(f, old, new)], demo=D(prop), needs=needs, breaks=breaks)
S = [
 s("S01-discardindex", "S01", A + "AllocationJournal_v.rs", "Map::new(|lsn| lsn_au_index.contains_key(lsn) && bdy <= lsn, |lsn| lsn_au_index[lsn])", "Map::new(|lsn| lsn_au_index.contains_key(lsn) && bdy < lsn, |lsn| lsn_au_index[lsn])",
   "a discard to a boundary that is the last message of a record whose unit holds nothing later", "the index forgets the first message that is kept, and its allocation unit is freed"),
 s("S01-prunecurr", "S01", A + "MiniAllocator_v.rs", '''        Self{allocs: new_allocs, curr: new_curr}
    }

    pub open spec fn page_is_reserved''', '''        Self{allocs: new_allocs, curr: if new_allocs.dom().is_empty() { None } else { self.curr }}
    }

    pub open spec fn page_is_reserved''', "the unit being filled is given up while others are held", "the allocator stays on a unit that it has given up, which a later record is then written to or which blocks marshalling"),
 s("S01-frozenlsns", "S01", A + "AllocationJournal_v.rs", "let frozen_lsns = Set::new(|lsn: LSN| new_bdy <= lsn && lsn < post_discard.seq_end());", "let frozen_lsns = Set::new(|lsn: LSN| new_bdy < lsn && lsn < post_discard.seq_end());",
   "a freeze at a boundary whose record shares its unit with no later one", "a journal cannot be frozen at that boundary with the page that holds it"),
 s("S02-splitflushed", "S02", B + "LinkedBetree_v.rs", '''            flushed: self.flushed.slice(idx, self.flushed.len() as int),''', '''            flushed: self.flushed.slice(0, self.flushed.len() - idx),''',
   "the split of an index node whose children have been flushed to different depths", "the right half thinks its children have seen other buffers than they have, so answers lose or repeat messages"),
 s("S02-flushgc", "S02", B + "LinkedBetree_v.rs", "        &&& self.root().flushed.update(child_idx as int, self.root().buffers.len()).all_gte(buffer_gc)", "        &&& buffer_gc <= self.root().flushed.update(child_idx as int, self.root().buffers.len()).offsets.last()",
   "a flush in a node with several children where an earlier child lags behind the last one", "buffers are dropped from a node before all of its children have received them"),
 s("S03-leafsplit", "S03", A + "AllocationBetree_v.rs", "        let new_buffer_aus = buffer_aus.add(add_buffer_aus);\n\n        (new_betree_aus, new_buffer_aus)", "        let new_buffer_aus = if request is SplitLeaf { buffer_aus } else { buffer_aus.add(add_buffer_aus) };\n\n        (new_betree_aus, new_buffer_aus)",
   "the split of a leaf that has buffers", "the buffers that both halves share are counted once, so compacting one half frees units that the other needs"),
 s("S03-flushcount", "S03", A + "LikesBetree_v.rs", "    old_parent.root().buffers.slice(0, buffer_gc as int).addrs.to_multiset()", "    old_parent.root().buffers.slice(0, if buffer_gc > 1 { buffer_gc as int - 1 } else { buffer_gc as int }).addrs.to_multiset()",
   "a flush that drops two buffers or more from the parent", "the last buffer dropped stays counted, so its pages are never freed"),
 s("S04-shrink", "S04", AB + "AbstractCrashAwareJournal_v.rs", "            require pre.persistent.seq_end <= frozen_journal.seq_end;", "            require pre.persistent.seq_start <= frozen_journal.seq_end;",
   "a commit of a journal frozen shorter than the persistent one, then a crash", "puts whose sync was answered are lost"),
 s("S04-keepflight", "S04", AB + "AbstractCrashAwareSystem_v.rs", "      let keep_in_flight = pre.journal.in_flight is Some && !pre.superblock_in_flight;", "      let keep_in_flight = pre.journal.in_flight is Some;",
   "a crash between the start of a commit and the landing of its superblock", "after the crash the store has a state that never reached the disk"),
 s("S04-earlyquery", "S04", AB + "AbstractJournal_v.rs", "            require pre.can_end_at(lbl->end_lsn);", "            require lbl->end_lsn <= pre.journal.seq_end;",
   "a query after a crash while recovery has not read the whole journal", "it answers without the puts that recovery has yet to apply"),
 s("S05-joinflight", "S05", I + "AtomicState_v.rs", "sync_req_map: pre.sync_req_map.insert(sync_req_id, (pre.history.len() - 1) as nat),", "sync_req_map: pre.sync_req_map.insert(sync_req_id, if pre.in_flight is Some { pre.in_flight.unwrap().version } else { (pre.history.len() - 1) as nat }),",
   "a sync asked while a superblock write is in flight, after further operations were executed", "the sync is answered when the older write lands, before those operations are on the disk"),
 s("S05-overlap", "S05", I + "AtomicState_v.rs", "        &&& pre.in_flight is None\n", "        &&& pre.in_flight is Some ==> pre.in_flight.unwrap().version < sb.version_index\n",
   "an operation and a second sync while a superblock write is under way", "two superblock writes are under way, and the older may land last and undo what was synced"),
 s("S05-earlyserve", "S05", I + "AtomicState_v.rs", "    pub open spec fn client_ready(self) -> bool\n    {\n        self.recovery_state is RecoveryComplete", "    pub open spec fn client_ready(self) -> bool\n    {\n        !(self.recovery_state is Begin)",
   "a request that arrives between the superblock's read and its answer", "the program serves from a store it has not read yet"),
 s("S06-writeduring", "S06", I + "Cache_v.rs", "||| (self.entries[slot] is Filled && !(self.status_map[slot] is Writeback))", "||| self.entries[slot] is Filled",
   "a write to a page whose write-back is under way", "when the older write completes, the page counts as clean although the disk lacks the newer contents"),
 s("S06-evictwriteback", "S06", I + "Cache_v.rs", """            &&& pre.entries[slot] is Filled
            &&& pre.status_map[slot] is Clean
        };

        let evicted""", """            &&& pre.entries[slot] is Filled
            &&& !(pre.status_map[slot] is Dirty)
        };

        let evicted""",
   "the eviction of a page whose write-back is under way", "a reload can give the contents from before the write"),
 s("S06-frozendomain", "S06", I + "CachedJournal_v.rs", "let frozen_lsns = Set::new(|lsn: LSN| frozen.boundary_lsn <= lsn && lsn < frozen_seq_end);", "let frozen_lsns = Set::new(|lsn: LSN| frozen.boundary_lsn < lsn && lsn < frozen_seq_end);",
   "a freeze whose boundary is the last message of a record that is not on the disk yet", "the record is left out of the pages that must be on the disk, so after a crash the frozen journal cannot be read"),
 s("S06-discarddirty", "S06", I + "JournalCoordinationSystem_v.rs", """        let cache_lbl = Cache::Label::EvictableCheck{addrs: discard_addrs};
        require Cache::State::next(pre.cache, pre.cache, cache_lbl);

        update journal = new_journal;""", """        let cache_lbl = Cache::Label::EvictableCheck{addrs: discard_addrs.intersect(new_journal.lsn_addr_index.values())};
        require Cache::State::next(pre.cache, pre.cache, cache_lbl);

        update journal = new_journal;""",
   "a discard of records that are still dirty or being written", "dirty pages stay in the cache that belong to no record, and are later written over pages given to others"),
 s("S07-splitpivot", "S07", B + "LinkedBranch_v.rs", """        let split_index = Key::largest_lt(self.root()->keys, pivot) + 1;
        let left_root""", """        let split_index = Key::largest_lte(self.root()->keys, pivot) + 1;
        let left_root""",
   "the split of a leaf at one of its own keys", "the pivot's key goes to the left half, where no query looks for it"),
 s("S07-summaryunit", "S07", A + "AllocationBranch_v.rs", "            &&& !dealloc_aus.contains(ptr.unwrap().au)\n", "",
   "a seal that puts the summary into a unit that holds no page yet", "the unit of the summary is given back while the branch needs it"),
 s("S07-leakunit", "S07", A + "AllocationBranch_v.rs", "        &&& self.mini_allocator.removable_aus() == dealloc_aus ", "        &&& dealloc_aus.subset_of(self.mini_allocator.removable_aus())",
   "a seal that does not give back every unused unit", "the branch keeps units that its summary does not name, which nothing will ever free"),
 s("S07-pathequiv", "S07", B + "LinkedBranch_v.rs", "        &&& 0 < self.depth ==> self.subpath().path_equiv(other_key)", "        &&& 2 < self.depth ==> self.subpath().path_equiv(other_key)",
   "an append to a leaf two levels below the root, with keys beyond the leaf's bound", "keys are put into a leaf where no query looks for them"),
 s("S07-pivotindex", "S07", B + "LinkedBranch_v.rs", """                &&& 0 <= pivot_index < root->pivots.len()
                &&& root->pivots[pivot_index] == pivot
""", """                &&& 0 <= pivot_index < root->pivots.len()
""",
   "the split of an index node under a pivot that is not the one at the split's place", "the parent sends keys to the wrong half"),
 s("S07-firstkey", "S07", B + "LinkedBranch_v.rs", "            if 0 <= llte && node->keys[llte] == key {", "            if 0 < llte && node->keys[llte] == key {",
   "an insert of a key that is the first of its leaf already", "the leaf holds the key twice"),
]
