#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's working tree
   check.py replay <file>                          replay a reported violation
   check.py setup                                  build everything once"""
import json, os, random, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from driver.common import *
from driver.lanes import *

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TITLE = {"C01": "concurrent callers", "C02": "call histories", "C03": "re-entrant callers", "C04": "stopped callers", "C05": "failing heap, system, clock, environment", "C06": "C surface", "C07": "Python package", "C08": "floating-point control state", "C09": "corrupted readings", "C10": "fork, thread and process start and exit", "C19": "calls on small stacks", "C20": "what calls leave in the process", "C21": "abandoned calls"}
# canaries of /verif/shim/src/canary.rs each campaign must notice (True) or ignore (False): (canary, expected, engine, mode)
CONTROL = {
    "C01": [(0, 1, "instr", 0), (1, 1, "instr", 0), (2, 1, "instr", 0), (3, 1, "instr", 0), (26, 0, "instr", 0), (27, 0, "instr", 0)],
    "C02": [(3, 1, "instr", 0), (4, 1, "native", 1), (26, 0, "instr", 0), (27, 0, "instr", 0)],
    "C03": [(5, 1, "instr", 0), (6, 1, "instr", 0), (7, 1, "instr", 0), (8, 1, "instr", 0)],
    "C04": [(7, 1, "instr", 0), (8, 1, "instr", 0), (26, 1, "instr", 0), (27, 1, "instr", 0)],
    "C05": [(9, 1, "instr", 0), (10, 1, "instr", 0), (11, 1, "instr", 0), (12, 1, "instr", 0), (13, 1, "instr", 0), (14, 1, "instr", 0), (15, 1, "instr", 0), (16, 1, "instr", 0), (17, 1, "native", 0), (18, 1, "instr", 0), (25, 1, "instr", 0)],
    "C06": [],
    "C08": [(19, 1, "instr", 0), (20, 1, "instr", 0), (21, 1, "instr", 0)],
    "C09": [(22, 1, "instr", 0), (23, 1, "instr", 0)],
    "C10": [(7, 1, "instr", 0), (24, 1, "instr", 0), (25, 1, "instr", 0)],
    "C19": [(28, 1, "instr", 0), (29, 1, "instr", 0), (28, 1, "native", 5), (26, 0, "instr", 0), (34, 0, "instr", 0)],
    "C20": [(14, 1, "instr", 0), (32, 1, "instr", 0), (33, 1, "instr", 0), (35, 1, "instr", 0), (30, 1, "native", 5), (31, 1, "native", 5), (34, 0, "native", 5), (26, 0, "instr", 0), (27, 0, "instr", 0)],
    "C21": [(5, 1, "instr", 0), (6, 1, "instr", 0), (7, 1, "instr", 0), (8, 1, "instr", 0)],
}
REAL = "the library: every function it compiles from /repo/src (Rust API and, where used, the C functions), Rust std, glibc threads, glibc libm"
STUB = "thread scheduler, futexes, sleeping and yielding, clocks, random source, environment, allocator failures, failing system calls, CPU identification and time-stamp instructions, CPU count, writes to files and terminals, signal delivery (the handler runs as a call at a chosen point of the interrupted thread)"


def plan_of(prop, tier, b):
    """lanes of a property: (name, build, mode, batches, runs, time limit, env, extra, engine)"""
    q = tier == "quick"
    L = []
    I, N = "instr", "native"

    def lane(name, kind, mode, batches, runs, tl, **kw):
        L.append((name, kind, mode, batches if q else batches * kw.pop("mul", 12), runs, tl if q else tl * 8, kw))
    if prop in ("C01", "C03", "C04", "C10"):
        lane("schedules", I, 0, 2220, 14, 120)
        lane("instructions", N, 0, 320, 10, 90)
        if prop == "C10":
            lane("churn histories", N, 1, 48, 3, 40)
    elif prop == "C02":
        lane("histories", I, 0, 2220, 14, 100)
        lane("long histories", N, 1, 400, 4, 120)
        lane("permuted histories", N, 3, 60, 1, 120)
    elif prop == "C05":
        lane("faults", I, 0, 2220, 20, 120)
        lane("faults, shipped code", N, 0, 1000, 20, 90)
        lane("moved stacks", N, 2, 112, 10, 60)
    elif prop == "C06":
        lane("C schedules", I, 0, 2220, 12, 110)
        lane("C sweep", N, 2, 160, 10, 90, clib=True)
        lane("C instructions", N, 0, 160, 8, 60, clib=True)
        lane("C long histories", N, 1, 100, 3, 60, clib=True)
        lane("C permuted histories", N, 3, 60, 1, 100, clib=True)
        lane("stdcall schedules", I, 0, 500, 12, 50, stdcall=True)
        lane("stdcall directed", I, 4, 32, 14, 50, stdcall=True)
        lane("stdcall sweep", N, 2, 64, 10, 50, stdcall=True)
        lane("stdcall permuted histories", N, 3, 16, 1, 60, stdcall=True)
    elif prop == "C08":
        lane("control state", I, 0, 2220, 14, 120)
        lane("control state, shipped", N, 0, 500, 14, 100)
        lane("control state sweep", N, 2, 800, 4, 100)
    elif prop == "C09":
        lane("corrupted readings", I, 0, 2220, 12, 110)
        lane("sweep", N, 2, 320, 20, 100)
        lane("sweep, checked build", I, 2, 64, 4, 60)
        lane("long histories", N, 1, 120, 3, 60)
    elif prop == "C19":
        lane("schedules", I, 0, 2220, 14, 80)
        lane("instructions", N, 0, 400, 12, 50)
        lane("measured sweep", N, 5, 640, 10, 80)
        lane("C measured sweep", N, 5, 160, 10, 40, clib=True)
        lane("long histories", N, 1, 64, 3, 40)
    elif prop == "C20":
        lane("schedules", I, 0, 2220, 14, 80)
        lane("shipped code", N, 0, 400, 12, 50)
        lane("measured sweep", N, 5, 640, 10, 80)
        lane("C library", N, 0, 240, 12, 50, clib=True)
        lane("long histories", N, 1, 64, 3, 40)
        lane("permuted histories", N, 3, 24, 1, 60)
    elif prop == "C21":
        lane("schedules", I, 0, 2220, 14, 100)
        lane("instructions", N, 0, 800, 12, 80)
        lane("C instructions", N, 0, 160, 12, 40, clib=True)
    lane("directed", I, 4, 96 if prop in ("C01", "C02", "C05") else 64, 14, 60)
    return L


def write_evidence(prop, tier, cov, t0, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": SEED, "level": "exploration", "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": violations}
    p = os.path.join(VERIF, "evidence", prop + ".json")
    json.dump(e, open(p + ".tmp", "w"), indent=1, ensure_ascii=False)
    os.rename(p + ".tmp", p)


def refs_compare(c, b, n, seed):
    """C05: the same calls in processes with different layouts, environments and limits return the same"""
    base = ["--refs", "1", "--prop", "C05", "--engine", "instr", "--seed", seed, "--from", 0, "--to", n]
    variants = [("fixed layout", {}, None), ("random layout", {"SIM_ASLR": "1"}, None), ("random layout again", {"SIM_ASLR": "1"}, None),
                ("other environment", {"SIM_ASLR": "1", "LANG": "tr_TR.UTF-8", "LC_ALL": "de_DE.UTF-8", "TZ": "Pacific/Kiritimati", "RUST_BACKTRACE": "full", "RUST_MIN_STACK": "1", "HOME": "/nonexistent", "TMPDIR": "/nonexistent", "OMP_NUM_THREADS": "1", "PADDING": "x" * 60000}, None),
                ("other limits", {"SIM_ASLR": "1"}, "ulimit -s 512; ulimit -n 32; cd /; exec < /dev/null;"),
                ("other fixed layout", {"PADDING": "y" * 30000}, None)]
    procs = []
    for name, env, sh in variants:
        cmd = [c.host, "--so", b.so, "--patch", b.patch] + [str(x) for x in base]
        if sh:
            cmd = ["bash", "-c", sh + 'exec "$@"', "x"] + cmd
        procs.append((name, env, sh, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, **env), text=True, errors="replace")))
    outs = []
    for name, env, sh, p in procs:
        try:
            o, _ = p.communicate(timeout=400)
        except subprocess.TimeoutExpired:
            p.kill(); o, _ = p.communicate(); return 0, None
        outs.append((name, [x for x in o.splitlines() if x.startswith("REF ")]))
    n0 = len(outs[0][1])
    for name, ls in outs[1:]:
        for x, y in zip(outs[0][1], ls):
            if x != y:
                f = os.path.join(c.repdir, "C05-layout.plan")
                op = (x if " | " in x else y).split(" | ")[1]
                open(f, "w").write("simplan 1\nprop C05\nengine instr\nseed 1\n# refs-compare: %s: %s, %s: %s\n%s\nend\n" % (outs[0][0], x.split(" | ")[0], name, y.split(" | ")[0], op))
                if refs_replay(c.host, b, f):
                    raise Found("REFERENCE", f, "%s: %s; %s: %s" % (outs[0][0], x.split(" | ")[0], name, y.split(" | ")[0]), None)
        if len(ls) != n0:
            c.unconfirmed.append({"class": "REFERENCE", "message": "number of reference calls differs: " + name})
    return n0 * len(outs), len(outs)


def refs_replay(host, b, f):
    seen = {}
    for k in range(24):
        env = {} if k % 4 == 0 else {"SIM_ASLR": "1"}
        if k % 4 == 3:
            env["PADDING"] = "x" * 50000
        rc, o = simhost(host, b, ["--refs", "1", "--prop", "C05", "--engine", "instr", "--seed", 1, "--from", 0, "--to", 0, "--opsfrom", f], env=env, timeout=100)
        for ln in o.splitlines():
            if ln.startswith("REF "):
                p = ln.split(" ", 3); seen.setdefault(p[3], set()).add(tuple(p[1:3]))
    return [(k, v) for k, v in seen.items() if len(v) > 1]


def determinism(c, b):
    """the same seeds give the same executions whatever the number of workers"""
    def dig(rng, cpu):
        rc, o = simhost(c.host, b, ["--prop", c.prop, "--engine", "instr", "--seed", SEED, "--from", rng[0], "--to", rng[1], "--runs", 6, "--digests", 1, "--cpu", cpu, "--viol", os.path.join(c.repdir, "det"), "--nomin", 1], timeout=200)
        return [x for x in o.splitlines() if x.startswith("DIGEST")]
    cpus = sorted(os.sched_getaffinity(0))
    a = dig((0, 8), cpus[0]); z = dig((0, 3), cpus[-1]) + dig((3, 8), cpus[len(cpus) // 2])
    return len(a), a == z and len(a) > 0


def decide(prop, tier):
    t0 = time.time()
    d = build_dir(); host = build_host(d)
    repdir = os.path.join(VERIF, "build", "replay"); os.makedirs(repdir, exist_ok=True)
    c = Campaign(d, host, prop, SEED, repdir)
    builds = {}; controls = []; extra = {}; found = None; assumptions = [
        "x86-64 Linux; scheduling is sequentially consistent in the simulator (weak-memory effects are covered only by the race detector and, for C01, by Miri)",
        "what a call returns alone is taken from the same build of the same tree",
        "the C math library and the Rust standard library are trusted"]
    try:
        m32 = None
        if prop == "C06":
            from driver import mirilane
            m32 = mirilane.start32()
        for k in ("native", "instr"):
            builds[k] = build_shim(d, k)
        clib = None
        if prop == "C06":
            for k in ("native", "instr"):
                try:
                    builds[k, "std"] = build_shim(d, k, stdcall=True); err = builds[k, "std"].cdecl_error
                except HarnessError as e:
                    err = str(e)
                if err or (miss := missing_symbols(builds[k, "std"].so)):
                    builds.pop((k, "std"), None); extra["stdcall_" + k] = "not built: " + (err or "no " + " ".join(miss))[-300:]
            if builds["native"].cdecl_error:
                f = os.path.join(repdir, "C06-build.txt"); open(f, "w").write("simbuild cdecl\n" + builds["native"].cdecl_error)
                raise Found("BUILD", f, "the library does not compile with the cdecl feature: " + builds["native"].cdecl_error[-400:].replace("\n", " "), None)
            miss = missing_symbols(builds["native"].so)
            clib, err = build_clib(d)
            if clib:
                miss = missing_symbols(clib)
            extra["c_library"] = "built with cargo rustc --crate-type cdylib --features cdecl" if clib else "not buildable here, the same functions linked into the simulator's shared object were used: " + str(err)[-200:]
            if miss:
                f = os.path.join(repdir, "C06-symbols.txt"); open(f, "w").write("simsymbols\n" + " ".join(miss))
                raise Found("SYMBOL", f, "the C library does not export " + " ".join(miss), None)
        elif any(x[6].get("clib") for x in plan_of(prop, tier, builds)):
            clib, err = build_clib(d)
            extra["c_library"] = "built with cargo rustc --crate-type cdylib --features cdecl" if clib else "not buildable here, the same functions linked into the simulator's shared object were used: " + str(err)[-200:]
        for name, kind, mode, batches, runs, tl, kw in plan_of(prop, tier, builds):
            env = {"SIM_CLIB": clib} if kw.get("clib") and clib else None
            b = builds.get((kind, "std")) if kw.get("stdcall") else builds[kind]
            if b:
                c.lane(name, b, mode, batches, runs, tl, env=env)
        if prop == "C06":
            extra["miri_stdcall"] = mirilane.run_miri32(d, tier, SEED, repdir, m32)
        if prop == "C05":
            n, v = refs_compare(c, builds["instr"], 64 if tier == "quick" else 600, SEED)
            extra["layout_comparison"] = {"reference_calls": n, "process_configurations": v}
        from driver import pylane
        if prop in pylane.EXTRA:
            pc = pylane.extra(prop, tier, SEED, d, repdir)
            c.lanes += pc.lanes; controls += pc.controls; c.unconfirmed += pc.unconfirmed; c.hashes.update(bytes.fromhex(x) + b"\xff" for x in pc.distinct); extra["components_real_python_lane"] = pylane.REAL
            for k in ("runs", "calls", "nested_calls", "history_calls", "points", "reference_runs"):
                c.tot[k] = c.tot.get(k, 0) + pc.tot.get(k, 0)
            for k, n in pc.fired.items():
                a = c.fired.setdefault("python_" + k, [0, 0]); a[0] += n
        if prop == "C01":
            from driver import mirilane
            extra["miri"] = mirilane.run_miri(d, tier, SEED, repdir)
        for can, want, eng, mode in CONTROL.get(prop, []):
            ok, what = canary_control(c, builds[eng], prop, can, bool(want), engine=eng, mode=mode)
            controls.append({"canary": can, "expected": "noticed" if want else "quiet", "ok": ok, "outcome": what})
        n, same = determinism(c, builds["instr"])
        extra["determinism_self_test"] = {"seeds_repeated": n, "identical": same}
        extra["control_canaries"] = controls
    except Found as f:
        found = f
    samples = []
    for p in sorted(c.hashes)[:3]:
        samples.append({"schedule_and_fault_hash": p[:8].hex()})
    rc, o = simhost(host, builds["instr"] if "instr" in builds else builds["native"], ["--prop", prop, "--engine", "instr", "--seed", SEED, "--from", 0, "--to", 1, "--runs", 3, "--viol", os.path.join(repdir, "s"), "--sample", 3], timeout=100)
    samples += [x[7:] for x in o.splitlines() if x.startswith("SAMPLE ")]
    cov = {
        "evaluations": c.tot.get("runs", 0), "distinct_nontrivial": len(c.hashes),
        "rule": "One evaluation is one simulated process: a plan generated from one seed (operations per thread from a walk over all 12 functions x 37 property ids x 5 regions and families of colliding, neighbouring and corrupted calls; schedule and faults of the kind: " + TITLE[prop] + "), executed and judged call by call against the same call alone in a fresh process. Distinct = different hash over every thread switch, interruption, fork and fault position, every operation and every returned value; a plan without at least two usable operations is dropped before it counts.",
        "samples": samples, "lanes": c.lanes, "totals": c.tot,
        "simulated_steps": c.tot.get("points", 0), "simulated_time_ns": c.tot.get("virtual_ns", 0),
        "faults_armed": {k[4:]: v[0] for k, v in c.fired.items() if k.startswith("cfg:") and v[0]},
        "faults_injected": {k: {"times": v[0], "runs_with": v[1]} for k, v in c.fired.items() if v[0] and not k.startswith("cfg:")}, "fault_kinds_not_injected": [k for k, v in c.fired.items() if not v[0] and not k.startswith("cfg:")],
        "components_real": REAL, "components_stub": STUB, "unconfirmed_reports": c.unconfirmed, **extra}
    write_evidence(prop, tier, cov, t0, 1 if found else 0, assumptions)
    if found:
        log("%s: %s" % (found.cls, found.msg))
        log("VIOLATION property=%s replay=%s" % (prop, found.path))
        return 1
    bad = [x for x in controls if not x["ok"]]
    if bad:
        log("control canaries not as expected: %s" % bad)
        return 2
    log("property %s held on everything explored (%d runs, %.0f s)" % (prop, c.tot.get("runs", 0), time.time() - t0))
    return 0


def replay(path):
    txt = open(path, errors="replace").read()
    if txt.startswith("simpy"):
        from driver import pylane
        return pylane.replay(path)
    d = build_dir(); host = build_host(d)
    if txt.startswith("simbuild") or txt.startswith("simsymbols"):
        b = build_shim(d, "native"); clib, err = build_clib(d)
        bad = b.cdecl_error or missing_symbols(clib or b.so)
        log("REPLAY %s" % (bad or "none")); return 1 if bad else 0
    if txt.startswith("simmiri"):
        from driver import mirilane
        return mirilane.replay(d, path)
    kind = "native" if "# library build: native" in txt or "engine native" in txt else "instr"
    b = build_shim(d, kind, stdcall=bool(re.search("^# library build: .* stdcall", txt, re.M))); env = {"SIM_CPU": "30"}
    if "# refs-compare" in txt:
        r = refs_replay(host, build_shim(d, "instr"), path); log("REPLAY %s" % (r or "none")); return 1 if r else 0
    if " clib" in txt:
        clib, _ = build_clib(d)
        if clib:
            env["SIM_CLIB"] = clib
    rc, o = simhost(host, b, ["--replay", path], env=env, timeout=600)
    log(o.strip()); return rc


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "setup":
        d = build_dir(); build_host(d)
        for k in ("native", "instr"):
            build_shim(d, k)
        from driver import pylane
        pylane.setup(d); build_clib(d)
        return 0
    prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if prop == "C07":
        from driver import pylane
        return pylane.decide(tier, SEED, write_evidence)
    return decide(prop, tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        log("check error: %s" % e); sys.exit(2)
