#!/usr/bin/env python3
"""S01..: the state machines of the Rust tree, executed (sp/) and judged by independent oracles of what they model."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vlib import *
import hrun
T = {
    "S01": ("distinct (transition, state reached) pairs, per worker", 5000, ["linked:" + t for t in ("put", "internal_journal_marshal", "discard_old", "freeze_for_commit", "read_for_recovery", "query_end_lsn")] + ["alloc:" + t for t in ("put", "internal_journal_marshal", "discard_old", "freeze_for_commit", "read_for_recovery", "internal_mini_allocator_fill", "internal_mini_allocator_prune", "restarts")] + ["hostile:refused", "refined:PagedJournal", "refined:LikesJournal"]),
    "S02": ("distinct (transition, state reached) pairs, per worker", 15000, ["step:" + t for t in ("put", "query", "freeze_as", "internal_flush_memtable", "internal_grow", "internal_split", "internal_flush", "internal_compact", "internal_buffer_noop")] + ["split:SplitLeaf", "split:SplitIndex", "depth:3", "refined:FilteredBetree", "refined:PivotBetree", "refined:PagedBetree", "refined:AbstractMap", "abstract maps compared", "hostile:refused", "hostile:taken"]),
    "S03": ("distinct (transition, state reached) pairs, per worker", 5000, ["LikesBetree:" + t for t in ("internal_flush_memtable", "internal_grow", "internal_split", "internal_flush", "internal_compact", "internal_buffer_noop", "likes_noop")] + ["AllocationBetree:" + t for t in ("internal_flush_memtable", "internal_grow", "internal_split", "internal_flush", "internal_compact_complete", "internal_buffer_noop", "au_likes_noop")] + ["counts compared", "most references:3", "depth:3", "hostile:refused"]),
    "S04": ("distinct (transition, state reached) pairs, per worker", 5000, ["step:" + t for t in ("load_ephemeral_from_persistent", "recover", "accept_request", "query", "put", "deliver_reply", "journal_internal", "map_internal", "req_sync", "reply_sync", "commit_start", "superblock_write_lands", "commit_complete", "crash")] + ["crashes that lose puts", "crashes with a superblock in flight", "crashes after the superblock landed", "syncs answered", "versions compared", "refined:CrashTolerantAsyncMap", "hostile:refused"]),
    "S05": ("distinct (transition, state reached) pairs, per worker", 8000, ["step:" + t for t in ("accept_request", "deliver_reply", "program_execute", "accept_sync_request", "program_accept_sync_request", "program_deliver_sync_reply", "deliver_sync_reply", "program_disk", "disk_internal", "crash")] + ["recoveries", "superblock writes done", "crashes that lose operations", "crashes with a superblock in flight", "crashes with a landed superblock unanswered", "crashes before the recovery", "syncs answered", "versions compared", "refined:CrashTolerantAsyncMap", "hostile:refused"]),
    "S06": ("distinct (transition, state reached) pairs, per worker", 8000, ["cache:" + t for t in ("reserve", "load_initiate", "load_complete", "access", "writeback_initiate", "writeback_complete", "evict", "evictable", "noop")] + ["step:" + t for t in ("put", "journal_marshal", "read_for_recovery", "freeze_for_commit", "query_end_lsn", "discard_old", "cache_disk_ops", "cache_internal", "disk_internal")] + ["crashes", "crashes that lose writes", "images committed", "journals read", "refined:LikesJournal", "hostile:refused"]),
    "S07": ("distinct (operation, branch reached) pairs, per worker", 8000, ["linked:" + t for t in ("insert", "append", "grow", "split")] + ["built:" + t for t in ("fill", "initialize", "append", "split", "seal")] + ["split of a leaf", "split of an index", "sealed leaf", "sealed with a summary", "buffers compared", "refined:PivotBranch", "refined:SimpleBuffer", "depth:4", "hostile:refused"]),
}
prop = sys.argv[1]
rule, need, evs = T[prop]
c = Check(prop, rule=rule)
hrun.runs(c, [(os.path.join(VERIF, "sp", "work.py"), prop, SEED * 100 + i, 300 if THOROUGH else 20) for i in range(8)], procs=8, label=False, env={"SP_REPO": REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"})
c.finish(min_evaluations=need, need_events=evs)
