#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 "C01": ("seeded schedule search; history invariants over symbol registrations", "names and codes observed by up to 130 concurrent threads form one bijection for the life of the process, up to 66,000 names"),
 "C02": ("seeded schedule search; name-after-code invariant and print/parse exchange between threads", "every code seen by any thread answers with its name at once in every interleaving sampled"),
 "C03": ("seeded schedule search; linearizability of system updates against an executable model", "histories of concurrent additions, counts and look-ups are linearizable against a sequential rule-set model"),
 "C04": ("seeded schedule search; linearizability of derivations against an executable L-system model", "each derivation equals the model's rewriting by one snapshot between its start and end"),
 "C05": ("simulated random source and schedules; support, refusal, frequency and independence tests (|z| < 7)", "picked bodies agree with the declared chances under fair, extreme and concurrent draws; a test fails falsely with probability below 3e-12"),
 "C06": ("seeded schedule search with panicking initialisers; linearizability against a register map", "family registration is once-only and stable, and systems made from a family have its symbols"),
 "C07": ("seeded schedules with injected panics, errors and re-entrant calls in caller code; linearizability with failed calls as no-ops", "failing caller code leaves no trace in shared and thread-local stores, and nobody gets stuck"),
 "C08": ("seeded schedules with spurious wake-ups, unfair wake order, starvation and stalls in mid-operation; deadlock and step-bound detection", "every mixed load sampled completes within its step bound"),
 "C09": ("simulated file system with fault injection on every call and concurrent changes of files; result compared with an independent plant model", "parse_file is exact for the delivered bytes or fails"),
 "C10": ("simulated file system with fault injection on every call; file compared with the SVG text", "a reported success means the complete text and nothing else is in the file"),
 "C11": ("the real lsystem program under a simulated file system with faults, crashes, torn writes and reruns; exit status, files and picture compared with an independent renderer", "exit status, output, other files and messages agree with the independent model of the whole pipeline"),
 "C12": ("seeded schedules and hash seeds, with concurrent noise; twin executions compared byte for byte and with an independent renderer", "renderings agree between threads and processes and with an independent model"),
 "C13": ("fault-injecting symbol and production stores under seeded schedules; call log checked against the model", "store failures surface unchanged and nothing is half registered"),
 "C14": ("simulated disk corruption and concurrent file changes; the whole pipeline must answer within its bound", "damaged plant data gives a result or an error, finite numbers only"),
 "C15": ("seeded schedules over systems that share names; each history checked against its own model, and with the others removed", "independent systems and stores have independent histories"),
}
NA = {
 "C16": "A pure function of one text: no schedule, clock, fault, interleaving or randomness for a simulation to decide (the part that concurrency or damaged input can reach is decided by C02, C09, C13 and C14).",
 "C17": "Pure arithmetic on values: no schedule, clock, fault, interleaving or randomness for a simulation to decide.",
 "C18": "A pure function of a production, a string and an index: no schedule, clock, fault, interleaving or randomness to decide (its effect on derivations is part of C04).",
}
checks = [{
    "property": p, "quick_cmd": f"./run.sh check {p} quick", "thorough_cmd": f"./run.sh check {p} thorough",
    "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation: " + t, "level": "exploration",
    "level_note": f"Evidence from sampled executions: {n}. Trusted: the simulator run-time (sim/rt), the reference model (sim/src/model.rs) and the instrumented build; memory is sequentially consistent and threads switch at atomics, locks, system calls and yields only.",
} for p, (t, n) in T.items()]
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "No hooks in /repo: the simulator takes over below the source level (see DESIGN.md). Replay a violation with ./run.sh replay FILE; ./tools/determinism.sh repeats executions in different processes and compares their logs."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
