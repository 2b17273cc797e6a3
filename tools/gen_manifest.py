#!/usr/bin/env python3
import json, os
TECH = "deterministic simulation with fault injection: "
NOTE = "Seeded search, not proof: it held on every simulated run listed in the evidence. Trusts the simulator, glibc and libm, rustc; x86-64 Linux only. "
C = {
"C01": (TECH + "seeded thread schedules at every shared access, function boundary and instruction, aimed at calls that touch lasting state; race detector; Miri seeded schedules", "Oracle: the same call alone in a fresh process, bit for bit. Weak-memory effects only through the race detector and Miri."),
"C02": (TECH + "seeded call histories, colliding-argument families, permuted histories and million-call histories with thread churn", "Oracle: the same call as first call of a fresh process, bit for bit. Histories to about 3 million calls."),
"C03": (TECH + "re-entrant calls injected at access points and single instructions, nested", "Interruption points are function boundaries, shared accesses and (shipped build) the first 30000 instructions of a call; nesting to depth 17."),
"C04": (TECH + "callers parked for ever at access points and single instructions", "Progress is bounded by 8 times the points the calls need alone plus a constant."),
"C05": (TECH + "failing allocations and system calls, clock jumps, environment, randomness, CPU identification, address-space layout, stack position and stack contents", "Oracle: the same call without faults, bit for bit. Faults reach libc-level seams and raw system calls from the library."),
"C06": (TECH + "the C library's functions under seeded schedules, histories, stopped callers and sweeps, against the Rust API", "Tolerance 1e-10 relative against Rust, bit for bit against itself alone. The stdcall functions run in the simulator with the C convention substituted for the stdcall one, which x86-64 lacks, and with their own convention on 32-bit x86 under Miri."),
"C07": (TECH + "CPython threads scheduled wherever the interpreter can switch, asynchronous exceptions, nested handler calls, garbage collections, failing calls and long histories, against the Rust API", "Tolerance 1e-10 relative. CPython 3.12 with the interpreter lock."),
"C08": (TECH + "per-thread floating-point control settings, interleavings and re-entrant calls", "Control words compared bit for bit; values compared in round-to-nearest; with FTZ or DAZ on only for ordinary magnitudes and correctly named regions."),
"C09": (TECH + "corrupted arguments injected into histories, schedules and native sweeps with work budgets", "A call alone is bounded at 40 million instrumented points and 6 s of CPU time (30 s on confirmation)."),
"C10": (TECH + "fork at arbitrary points, thread-exit destructors, process-exit handlers", "Oracle: the same call alone in a fresh process, bit for bit, in parent and child."),
"C19": (TECH + "calls started on stacks with 16 KiB left, under seeded schedules, interruptions and histories, and a native sweep that climbs by measured stack use", "In the instrumented build 48 KiB are added for the instrumentation's own frames; exact in the shipped build."),
"C20": (TECH + "seeded schedules and histories with a ledger of everything the library allocates, opens, registers, writes or changes, and library unloading as a fault", "Process state compared before and after each run; memory ledger counts the library's own allocations and mappings."),
"C21": (TECH + "calls abandoned (longjmp) at access points and single instructions, nested and repeated, with survivors checked", "Abandonment discards the frames of the call without unwinding."),
}
WHY = "A pure function of the arguments: no schedule, time, I/O, fault or history enters it, so simulation has nothing to vary; deciding it needs numerical checking against IAPWS-IF97, another family of technique."
NA = {k: WHY for k in ["C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"]}
NA["C18"] = "A pure equality between two evaluation methods of the same polynomial, with no schedule, time, I/O, fault or history in it; it needs numerical or algebraic checking, another family of technique."
NA["C16"] = "Which code an out-of-range argument gets is a pure function of the arguments; simulation decides only that bad input is answered promptly and disturbs nothing (C09)."
import sys
have = sys.argv[1:] or list(C)
m = {"version": 1, "setup_cmd": "python3 check.py setup",
 "hooks": {"guard": "none", "enable": "No hooks in /repo: the seams are compiler instrumentation (-Zsanitizer=thread with our own runtime), libc interposition, single-stepping and the crate's own features cdecl and python.", "source_commits": []},
 "checks": [{"property": k, "quick_cmd": "python3 check.py %s --tier quick" % k, "thorough_cmd": "python3 check.py %s --tier thorough" % k, "evidence_file": "evidence/%s.json" % k, "technique": C[k][0], "level": "exploration", "level_note": NOTE + C[k][1]} for k in C if k in have],
 "not_applicable": [{"property": k, "reason": NA[k]} for k in NA] + [{"property": k, "reason": "check under construction"} for k in C if k not in have]}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
