#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

T="src/tree.rs"; B="src/base_node.rs"; L="src/lock.rs"; R="src/range_scan.rs"; LIB="src/lib.rs"; NP="src/node_ptr.rs"; U="src/utils.rs"
N4,N16,N48,N256="src/node_4.rs","src/node_16.rs","src/node_48.rs","src/node_256.rs"; ST="src/stats.rs"

prop("C01","Nothing read optimistically is relied on before it is confirmed unchanged",
 "While other threads insert, update and remove, a lookup, scan, count, emptiness test, insertion, update or removal never returns an answer (a value, an absence, a list of pairs) and never follows a link into the tree on the strength of tree content that a writer may have been changing while it was read. Everything read without a lock is confirmed unchanged after it was read and before it is relied on; if it did change, the operation drops what it read and starts over from the top of the tree.",
 ["schedules"],"all interleavings of any number of readers and writers, on every path of every public operation",
 "The windows are a few instructions wide; the concurrent tests sample a handful of schedules and the shuttle tests only schedule at atomic operations of insert and get.",
 [T,R,B,L,ST],[("version re-check after every optimistic read","src/lock.rs ReadGuard::check_version / unlock / upgrade"),("restart loops","src/tree.rs get, insert, range, compute_if_present, value_count, is_empty")],
 [("type_version_lock_obsolete","version, lock bit and obsolete bit of a node","src/base_node.rs BaseNode")],
 ["results of get/range/is_empty/stats/compute_* under concurrent writers"])

prop("C02","Shared tree content changes only under its exclusive, revalidating lock",
 "Content of the tree that other threads can reach is modified only by an operation that has first locked exclusively the node it modifies, and the lock is granted only if that node has not changed since the operation read it. So two modifications of the same node never overlap, and no modification is ever based on a stale view of the node it modifies.",
 ["schedules"],"all interleavings of writers; every store to tree content on every path",
 "Overlapping writers need two threads inside a window of a few instructions on one node; tests use disjoint keys and check only that keys are present afterwards.",
 [L,B,T],[("compare-and-swap from the version that was read to that version with the lock bit set","src/lock.rs ReadGuard::upgrade, TypedReadGuard::upgrade"),("write guards as the only source of mutable access to published nodes","src/lock.rs WriteGuard, TypedWriteGuard")],
 [("type_version_lock_obsolete","bit 1 is the exclusive lock, bits 2.. the version","src/base_node.rs BaseNode")],["contents after concurrent updates"])

prop("C03","Every exclusive lock is released exactly once, on every way out",
 "Whatever way an operation ends (success, out-of-memory error, restart after contention, or a panic in the caller's closure), every node it locked has been unlocked exactly once with a version that differs from the one before, or has been taken out of the tree for good. No operation goes back to waiting or restarts while it still holds a lock.",
 ["schedules","fault_sequences","inputs"],"every exit of every operation, including unwinding out of a user closure and failed allocation",
 "No test makes a user closure panic or an allocation fail in the middle of a structural change and then uses the map again.",
 [L,T,B],[("unlock in Drop of the write guards","src/lock.rs impl Drop"),("forget only for retired nodes","src/base_node.rs insert_grow, src/tree.rs compute_if_present_inner")],
 [("type_version_lock_obsolete","lock bit and version","src/base_node.rs BaseNode")],["later operations on the same keys do not hang"])

prop("C04","A node is freed exactly once, after it is unlinked and all readers are gone",
 "A node that has been part of the tree goes back to the allocator only after it was unlinked from its parent and marked as dead while locked, and only through deferred reclamation, after every thread pinned at that time has unpinned. Every node that is unlinked is reclaimed exactly once, and no node that is still reachable is ever freed.",
 ["schedules","histories"],"all operation histories and interleavings with pinned readers",
 "Use after free shows only if a reader holds a stale link when the memory is reused; the leak-checking allocator is used by one sequential test.",
 [T,B,NP],[("mark_obsolete then guard.defer(drop_node)","src/base_node.rs insert_grow, src/tree.rs compute_if_present_inner"),("immediate free only of never-published nodes","src/tree.rs insert_inner")],
 [],["allocate/deallocate calls seen by the allocator, order relative to epochs"])

prop("C05","Shared nodes are only touched while the thread is pinned",
 "Every public operation that touches nodes of a shared map does so only while the calling thread is pinned, by the caller's guard or by one the operation takes itself before its first access and keeps until after its last. Reclamation is always handed to such a pinned guard.",
 ["schedules"],"every public operation, every path, any concurrent reclamation",
 "An unpinned traversal is harmless unless a node is freed under it, which the tests never provoke.",
 [LIB,T,ST],[("&Guard parameter of the operations","src/lib.rs"),("crossbeam_epoch::pin in stats","src/stats.rs")],[],["use after free in operations racing with removals and node growth"])

prop("C06","Contention is never visible to the caller",
 "Finding a node locked, replaced or changed by another thread never makes a public operation panic, report an error, or return a partial or stale result; the operation simply tries again. Each new attempt starts from scratch: nothing collected by an abandoned attempt reaches the result.",
 ["schedules"],"every point at which an operation can meet a concurrent writer",
 "The retry branches run only under contention at particular instructions; statistics are only taken by single-threaded tests.",
 [T,R,ST,B],[("match on the error and loop","src/tree.rs insert, compute_or_insert, compute_if_present, range, get, value_count, is_empty"),("per-attempt reset","src/range_scan.rs scan")],
 [],["panics or wrong results of operations under contention"])

prop("C07","Allocation failure gives an error and changes nothing",
 "If the allocator reports that memory is exhausted while a key is being inserted or computed, the operation returns the out-of-memory error to the caller, does not panic, and leaves every key and value as it was. Memory obtained by the failing operation is given back (as is that of an attempt abandoned for contention), and the map remains usable.",
 ["fault_sequences","inputs"],"every allocation of every operation, failing at any point",
 "The tests let only the first allocation of an insert fail and never look at the tree, the locks or the memory afterwards.",
 [T,B,NP,LIB],[("allocation errors propagated with ?","src/base_node.rs make_node, src/tree.rs insert_inner"),("freeing of an unpublished leaf","src/tree.rs insert_inner")],[],["return value, contents and allocator balance after a failed insert"])

prop("C08","Every operation maps keys to tree bytes in the same order-preserving way",
 "All operations of both map types translate a key to its eight key bytes in the same way, most significant byte first, and translate back with the inverse when keys are handed to the caller (scan results, drain callback). So a key stored by one operation is the same key for every other, and byte order in the tree is numeric key order.",
 ["inputs"],"all keys, all pairs of operations",
 "Tests use small keys and a few of the operations; the u64-keyed map has no tests at all.",
 [LIB],[("to_be_bytes / from_be_bytes at the API boundary","src/lib.rs")],[],["keys passed to and obtained from each public operation"])

prop("C09","Each node kind's type tag, layout, capacity and code agree everywhere",
 "A node is always accessed, copied, counted and freed as the kind it was created as: memory is returned to the allocator with exactly the size and alignment it was requested with, the kind's own code runs on it, it is considered full exactly when its own slots are used up, and it grows into a strictly larger kind.",
 ["inputs","histories"],"all four node kinds and every place that distinguishes them",
 "Size-mismatched deallocation and off-by-one capacity go unnoticed by the system allocator and by tests that do not fill each kind exactly.",
 [B,N4,N16,N48,N256,NP,ST,L],[("NodeType, node_layout, as_nX, gen_method dispatch, insert_and_unlock growth chain","src/base_node.rs"),("get_type / is_full","src/node_*.rs")],
 [("node_type","kind tag, fixed at creation","src/base_node.rs NodeMeta")],["layouts seen by the allocator"])

prop("C10","Within one node, stored children are exactly those found and enumerated",
 "For every node kind and any number of children up to its capacity: adding a new child, replacing one, or removing one affects exactly that child; a lookup of a byte finds exactly the child stored under it; enumeration yields every child in the requested byte range, each once, in ascending byte order (at most adding children outside the range); the child count is exact; and moving to a larger kind keeps every child.",
 ["inputs","histories"],"every node kind, fill level, byte and relative position of the byte among those present",
 "Errors in shifting or slot recycling need a certain fill level and position, and often a removal followed by an addition; tests add dense ascending or shuffled keys and check totals.",
 [N4,N16,N48,N256],[("sorted arrays in the 4 and 16 kinds","src/node_4.rs, src/node_16.rs"),("index table and free list in the 48 kind","src/node_48.rs"),("presence bits in the 256 kind","src/node_256.rs")],
 [("count","number of children","src/base_node.rs NodeMeta")],["get/range/remove results with many sibling keys"])

prop("C11","The maps cross threads only if everything they hold may cross threads",
 "Safe code can send a map to another thread only if its allocator, its drain callback and its key and value types may be sent, and can share a map between threads only if its allocator may be shared and its key and value types may be shared. A map, whose nodes are released on whatever thread comes by, is only made with an allocator that may be sent. Programs that would break this do not compile, and programs that respect it do.",
 ["programs"],"all safe programs and type arguments",
 "Tests can only contain programs that compile and only use thread-safe allocators and callbacks.",
 [T,LIB],[("unsafe impl Send/Sync and their bounds","src/tree.rs"),("bounds of new_with_drainer","src/lib.rs"),("PhantomData of K and V","src/lib.rs")],[],["whether a program type-checks"])

prop("C12","Dropping a map drains every entry once and frees every node once",
 "When a map is dropped, the drain callback is called exactly once for each entry present, with that entry's key and value, and every node of the tree is returned to the allocator exactly once, after its entries were drained and its children were freed. Entries removed before are not drained.",
 ["inputs","histories"],"every tree shape a history can leave behind",
 "The drain tests drop a map with a single entry.",
 [T,LIB],[("depth-first visitor in Drop","src/tree.rs impl Drop for RawCongee, recursive_dfs, DropVisitor")],[],["drain callback calls and deallocate calls at drop"])

prop("C13","Scans report only keys in range and stay inside the caller's buffer",
 "A range scan from start to end reports only keys that are at least start and less than end, each with the value stored under that very key, and reports nothing if end is not above start. The pairs it reports are in the leading slots of the caller's buffer, as many as the count it returns, and it never writes past the end of the buffer.",
 ["inputs","schedules"],"all key sets, bounds (including equal, reversed, extreme) and buffer sizes including zero",
 "Tests use dense small keys, buffers that fit, and one pair of bounds per shape.",
 [R,LIB],[("in-range and capacity test in front of the only store to the buffer","src/range_scan.rs write_result"),("order test of the bounds","src/range_scan.rs is_valid_key_pair, src/tree.rs range"),("reinterpretation of the buffer","src/lib.rs Congee::range")],[],["returned count and buffer contents"])

prop("C14","Updates replace exactly the value they saw and report it",
 "An insert, update, removal or compute operation that takes effect replaces or removes exactly the value it read under that key, with no other update of that key in between, stores exactly the value supplied (or computed from the value it reports as old), and reports that old value (or that there was none) to the caller. An operation that reports no effect has changed nothing.",
 ["schedules","inputs"],"all keys, values, closures and interleavings of updates on one key",
 "Lost updates need two writers on one key within a few instructions; the concurrent tests write each key once.",
 [T,LIB],[("read value, call closure, upgrade at the version read, store","src/tree.rs insert_inner, compute_if_present_inner")],[],["returned old/new values versus later reads"])

prop("C15","compare_exchange swaps only on a match and tells the truth",
 "compare_exchange changes the entry if and only if the key is present with exactly the expected value, and then stores the new value or removes the entry if none is given. It returns success with the new state exactly when that happened; otherwise it returns failure with the current value, or with none if the key is absent, and changes nothing.",
 ["inputs","schedules"],"all combinations of present/absent key, equal/different value, new value given or not, equal to old or not",
 "The only test is one successful exchange in a documentation example.",
 [LIB,T],[("closure comparing with the expected value and result classification","src/lib.rs compare_exchange")],[],["return value and later reads"])

prop("C16","Scans skip no key that lies in range",
 "A range scan over a quiescent map with room in the buffer reports every key that is at least start and less than end, in ascending key order and each once; with a smaller buffer it reports the smallest such keys. A subtree or child is passed over only if all keys below it lie outside the bounds.",
 ["inputs"],"all key sets, bounds and tree shapes (compressed paths that part from the bounds at any of the eight bytes, all node kinds)",
 "Whether a subtree is skipped depends on where its path parts from each bound; each regression test in the suite pins one such case.",
 [R,U],[("byte-wise comparison of paths with both bounds","src/range_scan.rs scan, find_start, find_end, check_prefix_*")],[],["range results"])

prop("C17","Inserting places a key on exactly the path every lookup follows",
 "A newly inserted key is stored under all eight of its own bytes, so that it is found by that key and no other; values sit at the eighth byte and nowhere else. Keys stored before keep their own paths when a compressed path is split for a new key, and the path recorded in a node never changes while it is in the tree.",
 ["inputs","histories"],"all keys and all points (0..7) at which a new key parts from an existing path",
 "Tests insert small dense keys (one split depth) or random ones (mostly the same few shapes).",
 [T,B,NP,U],[("full-path prefixes and the split code","src/tree.rs insert_inner"),("level decides value or child","src/node_ptr.rs downcast")],
 [("prefix","the key bytes from the root to the node","src/base_node.rs NodeMeta")],["get after insert of related keys"])

prop("C18","Node memory is never accessed out of bounds, even on torn reads",
 "No access to a node's arrays goes outside them, whatever values a concurrent writer makes the reader see: an index that is used without a bounds check is read once and is limited by what was checked, and no reader panics on counts or positions that change between two reads.",
 ["schedules","inputs"],"all interleavings of unlocked readers with writers; every unchecked or count-derived index",
 "Requires a writer between two loads of the same byte; address sanitizer runs only see the schedules that happen.",
 [N4,N16,N48,N256,B],[("get_unchecked, copy_within and count arithmetic in the node kinds","src/node_*.rs")],[],["out-of-bounds reads or panics of readers under concurrent writers"])

prop("C19","A map is reported empty exactly when it holds no key",
 "The emptiness test returns true if no key is present and false if at least one is, whatever keys were inserted and removed before; under concurrency its answer was right at some moment during the call.",
 ["histories","schedules"],"all histories of insertions and removals",
 "The only test asks before and after one insertion.",
 [T,LIB],[("is_empty","src/tree.rs")],[],["is_empty"])

prop("C20","Statistics count every node and entry in its own category",
 "Node statistics attribute every node to its own kind and level and report the number of entries that are present, its memory figure adds each kind's own size, and load factors are relative to each kind's own capacity.",
 ["inputs","histories"],"all tree shapes, all four kinds",
 "Statistics are printed by one test and never checked.",
 [ST,T],[("StatsVisitor, LevelStats, NodeStats::fmt","src/stats.rs")],[],["stats() display / serialization"])

prop("C21","Concurrent histories are linearizable",
 "Every concurrent history of operations on one map has the same results as some sequential order of those operations that respects real time.",
 ["schedules","histories"],"all concurrent histories",
 "Tests check presence of keys after the fact, for a few schedules.",
 [T,R,L],[("optimistic lock coupling as a whole","src/tree.rs, src/lock.rs")],[],["results of concurrent operations"])

prop("C22","Sequential histories behave as an ordered map",
 "Every sequential history of operations returns exactly what an ordered map of 8-byte keys to words would return.",
 ["histories","inputs"],"all sequential histories",
 "Differential tests sample histories.",
 [T,R,LIB],[("the radix tree as a whole","src/")],[],["all return values"])

prop("C23","Operations complete under contention",
 "Under any fair schedule every operation completes: no deadlock, livelock or starvation.",
 ["schedules"],"all fair schedules",
 "Liveness needs unbounded schedules.",
 [T,L,U],[("try-lock with restart, back-off","src/tree.rs, src/utils.rs Backoff")],[],["operations return"])

prop("C24","Publication and validation order memory accesses on weak memory machines",
 "On every supported machine, a reader that confirms a node unchanged has seen exactly the content of that version, whatever the hardware or compiler reorders.",
 ["schedules","configurations"],"all reorderings the memory model allows",
 "Tests run on one strongly ordered machine.",
 [L,B],[("Acquire/Release orderings on the version word","src/lock.rs, src/base_node.rs")],[],["results on weakly ordered machines"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
