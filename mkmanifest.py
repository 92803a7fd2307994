#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
T = {
 "C01": ("ledger of blocks and objects behind monitored allocators and types, under ASan/UBSan", "every block and object event of every executed history is matched exactly"),
 "C02": ("model-based history monitor with event counts and aliasing checks", "every holder is compared with a value model after every operation"),
 "C03": ("per-type ledger of polymorphic owned objects, dynamic type and full value read back after every step", "13 derived shapes of virtual, non-virtual, abstract, trivial hierarchies"),
 "C04": ("address and event-count oracle on every move", "all operand states, allocator relations and propagation settings enumerated"),
 "C05": ("model-based history monitor over all engaged/valueless operand combinations", "all combinations enumerated, random histories on top"),
 "C06": ("fault injection at every allocation and owned-type operation, with state comparison", "the k-th fault point is enumerated until the operation succeeds"),
 "C07": ("arena-identity monitor of every allocate/construct/destroy/deallocate", "all propagate-trait combinations, stateful and always-equal, hooked, minimal, final, pmr, fancy allocators"),
 "C08": ("differential oracle: each operator against the same operator on plain values", "special and random values, all states and operand orders, several comparison categories"),
 "C09": ("differential oracle for std::hash and model check of unordered containers", "special and random values, all allocators, container histories"),
 "C10": ("address-stability and assignment-count monitor, constness observed through overload resolution", "all accessors and value categories"),
 "C11": ("address, allocator-identity and event-count oracle on every swap", "all operand states, trait settings and dynamic types enumerated"),
 "C12": ("argument-category and special-member recorder around every constructor", "every constructor form the headers offer"),
 "C13": ("model of recursive structures under aliasing assignments, with ASan", "lists and trees of several owned types and allocators, every nesting depth up to the bound"),
 "C14": ("ThreadSanitizer (happens-before race detection) over threaded workloads plus sequential-result oracle", "races are detected on the interleavings' happens-before relation, not only on the schedule that occurred"),
 "C15": ("model of plain values beside composites and containers, random histories with fault injection", "vectors, lists, deques, maps, optionals, variants, pmr containers"),
 "C16": ("trace comparison of identical histories across differently built programs", "the traces of about 675k histories per build are compared case by case"),
 "C18": ("differential oracle: every construction, assignment and conversion query put to the holder and to the plain owned type in the same program, then carried out and compared; declared exception guarantees against the allocator's traits; recorded overload choices", "24 owned types x 33 argument types x value categories x allocators with and without default constructor, 18 allocator trait combinations"),
 "C17": ("the compilers' constant evaluators as undefined-behaviour interpreters over random histories, with a model and a compile-time/run-time comparison as oracle", "the evaluator rejects any undefined step, leak or mismatched deallocation in the histories it carries out; gcc's and clang's evaluators are trusted"),
}
NOTE = "Exploration by execution: sound for what ran (no alarm unless an execution contradicts the statement); complete only over the enumerated matrix and the random histories actually run. Trusts libstdc++, the compilers' sanitizers and the monitor. "
checks = []
for p, (tech, note) in sorted(T.items()):
    if p == "C14" and not os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/p_threads.cc")): continue
    checks.append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p,
      "thorough_cmd": "python3 run.py %s --tier thorough" % p, "technique": "runtime monitoring: " + tech,
      "level": "fault_enumeration" if p == "C06" else "exploration", "level_note": NOTE + note[0].upper() + note[1:] + "."})
na = []
if not any(c["property"] == "C14" for c in checks): na.append({"property": "C14", "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors are allocators and owned types passed in through the public API."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
