#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

API = "src/rust_if97.rs"
ALL = [API, "src/common/propertry_pairs.rs", "src/common/region.rs", "src/common/boundaries.rs", "src/algo/polynomial.rs",
       "src/algo/polynomial_steps.rs", "src/algo/root.rs", "src/r1", "src/r2", "src/r3", "src/r4", "src/r5"]
PURE = [("no shared mutable state: every intermediate value is a local, every table a const", "src/algo, src/common, src/r1..r5"),
        ("dispatch through plain function pointers", "src/common/propertry_pairs.rs pair_properties")]
NOSTATE = [("(none)", "the library keeps no static, thread-local or heap state between or across calls; that absence is what the property rests on", "src/")]

prop("C01", "Concurrent calls return exactly what the same calls return alone",
 "When any number of threads call any of the twelve property functions at the same time, every call returns, bit for bit, what the same call returns as the only call of a fresh process. This holds for every interleaving of the callers, down to individual memory accesses, including the first calls of the process, and no interleaving contains a data race or other undefined behaviour.",
 ["schedules", "inputs"],
 "Every interleaving of concurrent callers (at memory-access granularity), every mix of functions, property ids and regions, cold or warm process.",
 "The tests call the functions one after another and compare with table values; the test runner's threads overlap only by chance and on unrelated values, so no interleaving is ever chosen, and a torn or mis-keyed shared value would need two particular accesses to line up.",
 ALL, PURE, ["return value of pt, ph, ps, pv, th, ts, tv, hs, px, tx, hx, sx"], None, NOSTATE)
prop("C02", "A result depends only on the arguments, never on earlier calls",
 "Every call of a property function returns, bit for bit, the value it would return as the first call of a fresh process. No history of earlier calls changes it: not repeated, nearly identical or failed calls, not calls of other functions or for other property ids and regions with the same numbers, not millions of calls, and not the creation, reuse and exit of calling threads.",
 ["histories", "inputs"],
 "Every finite sequence of calls made before the observed one, spread over any sequence of threads.",
 "The tests make a few table lookups each in a fixed order and compare to 5-9 digits; a stale cached value, a warm-started solver or a counter that trips after N calls needs a particular earlier call to show.",
 ALL, PURE + [("the secant and bisection solvers start from values computed from the arguments only", "src/algo/root.rs and its callers in src/r*/"),],
 ["return value of the twelve functions after any history"], None, NOSTATE)
prop("C03", "A call may interrupt another call on the same thread at any point",
 "If a call is suspended at any instruction and the same thread makes further calls before resuming it, as a signal, timer or callback handler does, then the suspended call and every nested call return exactly what each returns alone. None of them deadlocks, panics or ends the process, to any nesting depth.",
 ["schedules", "inputs"],
 "Every interruption point inside a call, every nested call or sequence of calls, nesting of any depth.",
 "No test ever re-enters the library from inside a call.",
 ALL, PURE + [("no locks and no once-cells that a nested call could wait for", "src/")], ["return values of the interrupted and the interrupting calls"], None, NOSTATE)
prop("C04", "A caller that stalls or dies in mid-call holds up no other caller",
 "If some calling threads stop for ever at arbitrary points inside a call (killed, suspended, or starved), every other thread's calls, current and future, still finish within a bounded number of their own steps. They return exactly what they return alone.",
 ["crash_points", "schedules", "fault_sequences"],
 "Every set of stopped callers, every point of a call at which each stops, every later workload of the surviving threads.",
 "No test stops a caller inside a call; lock-based sharing is invisible until a holder disappears.",
 ALL, PURE + [("calls are wait-free: no locks, spinning, condition variables or once-cells", "src/")], ["completion and return values of surviving threads' calls"], None, NOSTATE)
prop("C05", "Results need nothing from heap, operating system, clock or environment",
 "Every call completes and returns the same value, bit for bit, when every heap allocation and every system call made during it fails or reports anything at all. The value does not depend on the clock, the random source, environment variables, files, file descriptors, the number of CPUs, what the processor reports about itself (the C math library apart), address-space layout or thread creation, and a call never ends the process for want of any of them.",
 ["fault_sequences", "configurations", "inputs"],
 "Every sequence of allocation failures, system-call failures and clock, randomness, environment and CPU-identification answers during a call.",
 "The tests run in a healthy process with a normal clock and plenty of memory.",
 ALL, [("calls are straight-line and loop arithmetic over locals and const tables, with no allocation and no call into the operating system", "src/"),
       ("iterations stop on a residual or an iteration count, never on elapsed time", "src/algo/root.rs, src/r4/region4.rs, src/r4/region4_T_hs.rs")],
 ["return values and process survival with the allocator, system calls, clock, randomness and environment under the simulator"], None, NOSTATE)
prop("C06", "The C library gives concurrent hosts exactly the Rust API's results",
 "Each of the twelve functions of the C library, built with the cdecl feature or (for 32-bit x86 hosts) the stdcall feature, returns what the Rust function of the same name returns for the same arguments and property id, up to rounding. This holds for calls made in any order from any number of host threads in any interleaving, with calls nested in handlers and with other callers stalled, and no call unwinds into, aborts or corrupts the host.",
 ["schedules", "histories", "inputs", "fault_sequences"],
 "Every interleaving and history of C calls, alone or mixed with Rust calls in the same process, every property id including unknown ones, stalled and nested callers.",
 "The bindings have no tests at all, and at the pinned commit the cdecl feature did not even compile on x86-64.",
 ["src/cdecl_c_if97.rs", "src/stdcall_c_if97.rs", API, "src/common/propertry_pairs.rs"],
 [("each exported function repeats the Rust function's range checks and dispatch", "src/cdecl_c_if97.rs"), ("C calling convention on every exported function", "src/cdecl_c_if97.rs")],
 ["return values of the exported C symbols", "process survival"], None)
prop("C07", "The Python package gives threaded programs exactly the Rust API's results",
 "Each function of the Python package, the twelve property functions and every documented two-argument convenience function (pt2h, ..., sx2v), returns what the Rust API returns for the corresponding arguments and property id, up to rounding. This holds whatever other Python threads call in between, wherever the interpreter switches threads, and after calls that failed on a bad argument or were cut short by an asynchronous exception wherever the interpreter delivers one.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "Every interleaving of Python threads at bytecode boundaries, every asynchronous exception point, every history of failed calls.",
 "The Python package has no tests.",
 ["src/python_if97.rs", "python/seuif97/__init__.py"],
 [("extension functions hold the interpreter lock and keep no state", "src/python_if97.rs"), ("convenience functions are stateless one-line forwards", "python/seuif97/__init__.py")],
 ["return values and exceptions of the Python functions"], None)
prop("C08", "Calls leave the calling thread's floating-point control state as found",
 "On return from every call, whether it succeeded, was given invalid input or was interleaved with or interrupted by other calls, the calling thread's floating-point control settings (rounding mode, exception masks, flush-to-zero, denormals-are-zero, x87 precision) are exactly those the host had set before it. A host thread that runs with flush-to-zero or denormals-are-zero set, or with stale exception flags, gets the same results as one that does not. (For that last sentence the arguments and the result are of ordinary magnitude, zero or between 1e-30 and 1e30, and a region named in the call is the one the state lies in.)",
 ["configurations", "histories", "schedules", "inputs"],
 "Every host floating-point control setting per thread, every function, property id, region and input, every history and interleaving.",
 "The tests neither read nor change the floating-point environment.",
 ALL, [("only ordinary Rust floating-point operations; the control registers are never written", "src/")], ["MXCSR and x87 control word before and after each call", "return values with FTZ/DAZ set"], None)
prop("C09", "A bad reading is answered promptly and disturbs nothing else",
 "A call whose arguments have been corrupted in any way (NaN, infinities, denormals, flipped bits, spikes, stuck or swapped values, unknown property ids or regions) still returns a number within a fixed bound on its work, without panicking, hanging or ending the process. The calls before, after and concurrent with it return exactly what they return without it.",
 ["fault_sequences", "inputs", "histories", "schedules"],
 "Every 64-bit pattern in either argument, every 32-bit property id and region, injected at any place in any workload of any number of callers.",
 "The tests use table values well inside each region; at the pinned commit hs() never returned for some (h,s) inside the two-phase region near the critical point.",
 ALL, [("range checks before each region's equations", "src/common/region.rs, src/rust_if97.rs"),
       ("iteration caps in the solvers", "src/algo/root.rs, src/r1/region1_pair_ext.rs, src/r2/region2_pair_ext.rs, src/r4/region4.rs, src/r4/region4_T_hs.rs"),
       ("unknown ids and regions fall through to an error code", "src/common/propertry_pairs.rs, src/r*/region*_ext.rs")],
 ["completion, work done and return value of the corrupted call", "return values of all other calls"], None)
prop("C10", "Calls work in forked children and while threads and processes start or exit",
 "A process forked while other threads are at arbitrary points inside calls can use the library at once: every call in the child, and every call going on in the parent, returns exactly what it returns alone. The same holds for the first calls of a thread or process and for calls made from thread-exit destructors and process-exit handlers.",
 ["crash_points", "schedules", "histories"],
 "Every point inside concurrent calls at which the process forks, every workload in the child, every call placed in thread start-up, thread tear-down or process exit.",
 "No test forks, and none calls the library during tear-down.",
 ALL, PURE + [("no locks, once-cells or thread-locals that fork or tear-down could leave half-made", "src/")], ["return values in parent and child, and in destructors and exit handlers"], None, NOSTATE)

prop("C19", "A call needs no more than 16 KiB of stack",
 "Every call of a property function of the optimised library completes with its normal result when 16 KiB of stack are left to it, as on a coroutine, a fibre, a signal stack or a thread with a minimal stack. The need does not grow with the arguments (valid or corrupted, any property id or region), with the calls made before, or with the number of callers.",
 ["configurations", "inputs", "histories", "schedules"],
 "Every call with every argument pattern, property id and region, at every point of every history and interleaving, started with 16 KiB of stack left.",
 "The tests run on threads with 2 MiB of stack; a table copied to the stack or a recursion whose depth depends on the state only shows where the stack is short.",
 ALL, [("iteration instead of recursion, const tables used in place, small local arrays only", "src/algo, src/r1..r5")],
 ["completion of calls on small stacks", "stack high-water mark of each call"], None, NOSTATE)
prop("C20", "A call leaves nothing behind in the host process",
 "However many calls a host makes, from any threads in any order, the calls leave its process as it was: nothing is written to a terminal, file or other descriptor; no file descriptor, thread, timer, signal handler or mask, exit handler, environment variable, locale, working directory, panic hook or resource limit is added or changed; and the library keeps at most 1 MiB of memory in all. (errno and the floating-point exception flags are excepted.) The host may unload the C library after its last call, and end its threads and its process normally.",
 ["histories", "schedules", "inputs"],
 "Every sequence and interleaving of valid, invalid and corrupted calls, any number of them, followed by any way of ending threads, unloading the library and ending the process.",
 "The tests compare return values only; output, leaks, handlers and threads left behind do not change a return value, and a leak needs many calls to matter.",
 ALL + ["src/cdecl_c_if97.rs"], [("no I/O, no allocation kept, no registration with the operating system or the runtime", "src/")],
 ["process state before and after runs", "writes and system calls made during calls", "library-owned memory after runs", "unloading and process exit"], None, NOSTATE)
prop("C21", "A call abandoned half-way leaves the library as usable as before",
 "If a call is abandoned at any instruction and never resumed, because a signal handler jumps out of it (longjmp), its thread is cancelled or its coroutine dropped, however often and from however deeply nested calls, then every later call on the same thread and every call on other threads still returns exactly what it returns alone, and none deadlocks, panics or ends the process.",
 ["crash_points", "schedules", "histories", "inputs"],
 "Every point of a call at which it can be abandoned, every number and nesting of abandoned calls, every later workload of the same and other threads.",
 "No test abandons a call; guards, flags and borrowed scratch areas that are given back only at the end of a call look right until one is not.",
 ALL, PURE + [("nothing is acquired that a call would have to give back", "src/")], ["return values of later calls on the same thread and of calls on other threads"], None, NOSTATE)

NA = "A pure function of its input: a handful of table values are compared, but the claim quantifies over a continuum of states."
prop("C11", "Values agree with the IAPWS-IF97 formulation over its whole range",
 "For every state in the range of IAPWS-IF97 (273.15 K <= T <= 1073.15 K up to 100 MPa, T <= 2273.15 K up to 50 MPa), every property the library computes agrees with the value the IAPWS releases define, within the tolerance of the release.",
 ["inputs"], "Every state point and each of the 36 property ids.", NA + " The tests check 3-9 verification points per region.",
 ["src/r1", "src/r2", "src/r3", "src/r4", "src/r5", "src/common/transport_further.rs", "src/common/boundaries.rs"],
 [("coefficient tables and polynomial evaluation", "src/r*/"),], ["return values"])
prop("C12", "All input pairs describe the same state (forward/backward consistency)",
 "If (p,t), (p,h), (p,s), (p,v), (t,h), (t,s), (t,v) and (h,s) are taken from one single-phase state, every function asked for any property returns the same value up to the consistency tolerances of IAPWS-IF97, and asking for an input property returns the input.",
 ["inputs"], "Every single-phase state, every pair of input pairs.", NA + " tests/cross_test.rs checks a few points.",
 [API, "src/r1", "src/r2", "src/r3", "src/r5", "src/algo/root.rs"], [("backward equations and secant refinement", "src/r*/")], ["return values"])
prop("C13", "Every state is assigned to the one region IAPWS-IF97 gives it",
 "Each in-range state is assigned exactly the region IAPWS-IF97 gives it, whichever input pair describes it, and every property except those that jump physically is continuous across region boundaries within the release's tolerances.",
 ["inputs"], "Every state point, in particular at and next to every boundary, for all eight single-phase input pairs.", NA,
 ["src/common/region.rs", "src/common/boundaries.rs"], [("region tests of the eight input pairs", "src/common/region.rs")], ["property id OR (16)", "values across a boundary"])
prop("C14", "Saturation and wet-steam results are mutually consistent",
 "Saturation pressure and temperature are inverse to each other, wet-steam properties are the quality-weighted mix of the saturated liquid and vapour values at that pressure, and quality recovered from (p,h), (p,s), (p,v), (t,v), (t,h), (t,s), (h,s) equals the quality given to px, tx, hx and sx.",
 ["inputs"], "Every saturation pressure/temperature and quality in [0,1].", NA, ["src/r4", API],
 [("saturation line equations and lever rule", "src/r4/region4_pTx.rs, src/r4/region4_sat_pT.rs")], ["return values"])
prop("C15", "Derived properties satisfy the thermodynamic identities between them",
 "At every state the returned properties satisfy their defining identities: d = 1/v, u = h - p v, f = u - T s, g = h - T s, k, z, kinematic viscosity, thermal diffusivity and Prandtl number from their factors, cp >= cv, and the partial derivatives agree with each other and with finite differences.",
 ["inputs"], "Every single-phase state and property id.", NA,
 ["src/r1/region1_pT_ext.rs", "src/r2/region2_pT_ext.rs", "src/r3/region3_Td_ext.rs", "src/r5/region5_pT_ext.rs", "src/common/propertry_pairs.rs"],
 [("closed-form definitions per region", "src/r*/*_ext.rs")], ["return values"])
prop("C16", "Input outside the formulation's range gives an error code, not a number",
 "A call whose inputs lie outside the range of IAPWS-IF97, or that asks for an unknown property id or one not defined in the state's region, returns one of the documented negative error codes and never a plausible-looking property value.",
 ["inputs"], "Every out-of-range argument pair and every property id.", NA, ["src/common/region.rs", "src/common/constant.rs", API],
 [("range tests before evaluation", "src/common/region.rs")], ["return values"])
prop("C17", "Naming the correct region explicitly does not change the result",
 "Calling a function with the property id together with the region the state lies in returns the same value as calling it with the property id alone.",
 ["inputs"], "Every function taking a region, every state and property id.", NA, [API, "src/common/propertry_pairs.rs"],
 [("explicit region bypasses the region test only", "src/common/propertry_pairs.rs pair_properties")], ["return values"])
prop("C18", "The fast polynomial methods equal the plain sums they replace",
 "For every state, the multi-step and recursive polynomial evaluations used for speed give the values and derivatives of the plain powi() sums of the IAPWS equations up to rounding.",
 ["inputs"], "Every argument pair the regions evaluate, every coefficient table and step partition.", NA,
 ["src/algo/polynomial.rs", "src/algo/polynomial_steps.rs"], [("step partitions cover each table exactly once", "src/r1/region1_gfe.rs, src/r2/region2_gfe.rs, src/r3/region3_hfe.rs")], ["return values of the basic properties"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("schema ok", len(P))
except ImportError: pass
