#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (one place to say what is claimed and how)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATHS = "path-sensitive abstract interpretation of the resolved MIR (%s), from every public operation"
CHECKS = {
 "C01": (PATHS % "optimistic-read taint with version facts", "Sound for schedules under an interference abstraction: any unlocked read may return anything. Bounded by merging of abstract states, not by depth. Decides the absence of unvalidated uses, not linearizability as a whole."),
 "C02": (PATHS % "lock typestate", "Every write to a possibly shared node on every abstract path; sequential consistency of the version word assumed (C24)."),
 "C03": (PATHS % "lock typestate incl. unwind edges", "Every exit of every abstract path, including unwinding out of caller closures and allocator failure."),
 "C04": (PATHS % "node ownership typestate", "Nodes unlinked, retired or freed on each abstract path; epoch semantics of crossbeam-epoch trusted."),
 "C05": (PATHS % "pin/guard liveness", "Every access to a shared node on every abstract path."),
 "C06": (PATHS % "retry and carry-over analysis", "Every point at which a locked or changed node is met; panics are reported only where contention or an unconfirmed value decides them."),
 "C07": (PATHS % "allocation-failure injection at every call of the allocator, resource balance", "Every allocation on every abstract path of the inserting operations fails or succeeds; the map's own content afterwards is covered by the absence of writes."),
 "C09": (PATHS % "tag, layout and capacity facts of the nodes" + "; the facts of all paths must agree with each other", "Every construction, growth, dispatch and release of a node on every abstract path, and the constructors and the drop of the tree. What a kind's own code does with its slots is C10."),
 "C10": ("abstract interpretation of each node kind's own MIR: difference-bound zones, array segmentation, rank abstraction of the key bytes, loops to a fixpoint with widening", "Proved for all fill levels, bytes and positions where the fixpoint proves it (on the current tree: all operations of all four kinds; the 256-slot enumeration by exhaustive splitting on its first byte). A failed proof is confirmed on unrolled paths without widening before it is reported; otherwise it is listed as undecided."),
 "C18": ("interval and zone analysis of array indices in the readers' MIR with every shared read havocked at every load", "All readers of all four kinds, all values a torn read can give; sizes of the tree's own slices (key bytes, prefix) are not part of it."),
 "C17": ("abstract interpretation of the MIR of every keyed operation over a symbolic tree: nodes as key paths with order facts between bytes and lengths, effects and results judged against the path a lookup follows", "Any key, any depth, any point of parting (path positions are merged into classes by facts, loops to a fixpoint); inner workings of the node kinds are C10."),
 "C08": ("abstract interpretation of the MIR of every keyed operation and both scans over a symbolic tree: each byte used is traced to the key byte it stands for", "Any key, any depth. Conversions are followed through casts, shifts, byte swaps, copies and slices; one that is not understood is listed as undecided. The key given to the drain callback is C12's."),
 "C13": ("abstract interpretation of the MIR of both scans over a symbolic tree: order facts between path bytes and both bounds, a symbolic count of the results, recursion by summaries", "Any bounds, any tree shape, any buffer length, every attempt of a retried scan; what one node's enumeration yields is C10's."),
 "C16": ("abstract interpretation of the MIR of both scans over a symbolic tree with an obligation for every node reached and every enumeration begun, recursion by summaries", "Any bounds, any tree shape: whatever is left unvisited at a normal return is known to be out of range or the buffer to be full. Entries that other threads move meanwhile are C01's and C21's."),
 "C19": ("abstract interpretation of the MIR of is_empty over a symbolic tree with obligations for children not looked at, recursion by summaries; optimistic-read analysis of what was seen", "Any tree shape, modular over the recursion."),
 "C20": ("abstract interpretation of the MIR of the statistics traversal over a symbolic tree: counter increments collected per node kind and level, recursion by summaries; provenance of every printed number", "Any tree shape and level, modular over the recursion; the printed part over an abstract table of two kinds of levels. The serialized form is not covered; float rounding is not modelled."),
 "C11": ("type-level witnesses: generic programs type-checked by rustc against the current library, compile-fail ones with compiling twins", "Generic in key, value, allocator and callback types, so rustc's answer covers every safe program of that form; soundness of the trait system trusted."),
 "C12": ("ownership and obligation analysis of the drop traversal on the MIR, modular over its recursion", "Every path of the drop traversal, any tree shape; that the enumeration of one node yields each child once is C10's subject."),
 "C14": (PATHS % "effect/result agreement on value terms", "Every abstract path that changes the map or returns; the values are symbolic terms of what was read, supplied and computed."),
 "C15": (PATHS % "guard/effect/result agreement on value terms", "Every abstract path of compare_exchange."),
}
NA = {
 "C21": "linearizability quantifies over whole concurrent histories of unbounded length; no sound static argument short of a full proof reaches it. The per-path obligations it rests on are decided as C01 to C06, C14 and C15.",
 "C22": "functional equivalence with an ordered map over all histories needs an inductive proof over tree contents (runtime quantities); a static analysis can decide the local contracts it is built from (C08 to C10, C13, C14, C17) but not their composition over histories.",
 "C23": "liveness under fair schedules depends on the scheduler and on unbounded interleavings; static analysis decides only the safety part (no lock is held on any exit or restart: C03).",
 "C24": "whether the chosen memory orderings suffice on weakly ordered machines is a question about reorderings of the hardware memory model for seqlock-style plain reads that Rust's own model calls data races; no static rule over the source decides it soundly (the current code would already fail the textbook rule of a fence before re-validation).",
}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = dict(version=1,
        setup_cmd="cd driver && env -u RUSTUP_TOOLCHAIN cargo +nightly build --release --offline",
        checks=[dict(property=p, quick_cmd="python3 tools/check.py " + p, thorough_cmd="python3 tools/check.py " + p, technique=CHECKS[p][0], level="other", level_note=CHECKS[p][1]) for p in props if p in CHECKS],
        not_applicable=[dict(property=p, reason=NA[p]) for p in props if p not in CHECKS],
        notes="Static analysis only: the library is type-checked by a rustc driver (driver/) that writes its MIR; the analyses in engine/ work on that. Nothing of /repo is executed. See DESIGN.md.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(m["checks"]), "checks")
main()
