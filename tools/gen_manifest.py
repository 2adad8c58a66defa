#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "Seeded search, not a proof: holds on every run explored. Assumes sequentially consistent memory, that switches at the crate's basic blocks, loads and stores and at allocations, locks and writes are enough, "
SOLO = "and that the call made alone in a fresh process of the same build is the right answer, so a value that is wrong in every context is out of its sight. "
T = {
 "C01": ("deterministic simulation: seeded scheduler over preemption points at every basic block, load, store and allocation of the crate; answers compared with the same call run alone", SOLO),
 "C02": ("deterministic simulation: seeded call histories (near-equal arguments, thousands of calls, threads that come and go); answers compared with the same call in a fresh process", SOLO),
 "C03": ("deterministic simulation: callers suspended forever at seeded points inside calls; survivors must finish with their usual answer within an event bound", "and that a bound of many times the work of the call alone tells an endless call from a slow one. " + SOLO),
 "C04": ("deterministic simulation with fault injection: refused calls and allocation failure at seeded allocations, caught, in seeded interleavings; later and concurrent answers and shared operands compared", SOLO + "Allocation failures arrive as panics. "),
 "C05": ("deterministic simulation with fault injection: threads taking turns on polynomials, refused updates, allocation failures; after every operation compared with an exact sparse-polynomial model", "and the 150-line reference model. "),
 "C06": ("deterministic simulation with fault injection: histories of builds, rebuilds, edits and builds cut short by allocation failure; the list compared with brute-force enumeration", "and the brute-force reference. "),
 "C07": ("deterministic simulation: contributions from several threads in seeded arrival orders and groupings; running sums compared with a reference group law", "and the reference group law, written separately. "),
 "C08": ("deterministic simulation: residues merged in seeded arrival orders and groupings; each merge checked against the integer they come from", "and arithmetic of num-bigint. "),
 "C09": ("deterministic simulation with fault injection: sinks that fail, panic, interrupt or accept short pieces at seeded places, while other threads render; error, prefix and full-text rules", "and that the text rendered alone into a String is the full text. "),
 "C10": ("deterministic simulation with fault injection: errno and short results of write(2) on standard output at seeded writes, under seeded schedules; answers compared with the call alone on a healthy output", SOLO),
 "C11": ("deterministic simulation: entropy, clock, CPU count, heap and stack placement, environment variables and calling thread drawn per run; answers and texts compared with the reference environment", SOLO),
 "C12": ("deterministic simulation: a batch of calls, refusals and failed renderings repeated in one process under a seeded schedule; live bytes on the simulated heap must stop growing", "and that memory still growing at the last of 16 to 64 repetitions would go on growing. "),
 "C13": ("deterministic simulation: threads taking turns on term builders, with copies and refused settings; every built term compared with a record of the latest settings", "and the reference record. "),
}
PURE = "The value of one pure call as a function of its arguments: no schedule, time, I/O, fault or history enters it, so there is nothing for a simulator to control; deciding it would be input testing in simulator vocabulary. "
N = {
 "N01": PURE + "What orders, groupings and histories add to it is claimed as C07.",
 "N02": PURE + "What histories, refusals and interruptions add to it is claimed as C05.",
 "N03": PURE + "What arrival order and grouping add to the Chinese remainder is claimed as C08.",
 "N04": PURE, "N05": PURE, "N06": PURE, "N07": PURE, "N08": PURE, "N09": PURE, "N10": PURE, "N11": PURE,
}
m = {"version": 1, "setup_cmd": "sh sim/build.sh",
 "checks": [{"property": k, "quick_cmd": f"sh check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough sh check.sh {k}", "evidence_file": f"evidence/{k}.json", "technique": t,
   "level": "exploration", "level_note": COMMON + n} for k, (t, n) in T.items()],
 "not_applicable": [{"property": k, "reason": r.strip()} for k, r in N.items()],
 "notes": "No hooks in /repo: the simulator owns threads, heap, futexes, clocks, entropy and write(2) by symbol interposition and a RUSTC_WRAPPER that adds sanitizer-coverage callbacks to the crate. Defects repaired are listed in known_findings.txt."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(D, "MANIFEST.json"), "a").write("\n")
