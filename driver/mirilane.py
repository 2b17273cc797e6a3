"""Concurrent callers under Miri (seeded schedules, weak memory, undefined behaviour): a part of C01; and, for C06, the
stdcall library on a 32-bit machine."""
import json, os, re, subprocess, time
from .common import *
from .lanes import Found

BASE = "-Zmiri-preemption-rate=%s -Zmiri-deterministic-floats -Zmiri-ignore-leaks"
BAD = re.compile(r"error: Undefined Behavior|Data race detected|SIM-MISMATCH|the evaluated program deadlocked|error: deadlock")


I686 = "i686-unknown-linux-gnu"


def _miri(d, scenario, flags, timeout, crate="miri"):
    env = cargo_env({"RUSTUP_TOOLCHAIN": "", "CARGO_TARGET_DIR": os.path.join(d, crate), "MIRIFLAGS": flags})
    env.pop("RUSTUP_TOOLCHAIN")
    return run(["cargo", "+nightly", "miri", "run", "--offline"] + (["--target", I686] if crate == "miri32" else []) + ["--manifest-path", os.path.join(VERIF, crate, "Cargo.toml"), "--", str(scenario)], timeout=timeout, env=env, cwd=os.path.join(VERIF, crate))


def start32():
    """Build Miri's 32-bit standard library in the background."""
    try:
        return subprocess.Popen(["cargo", "+nightly", "miri", "setup", "--target", I686], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env={k: v for k, v in dict(os.environ, CARGO_NET_OFFLINE="true").items() if k != "RUSTUP_TOOLCHAIN"}, start_new_session=True)
    except OSError:
        return None


def run_miri32(d, tier, seed, repdir, setup):
    """C06: the stdcall library, called with the stdcall convention on 32-bit x86, from one or two threads."""
    t0 = time.time(); n = 24 if tier == "quick" else 600; seeds = 4 if tier == "quick" else 32
    lim = 60 if tier == "quick" else 1200
    ev = {"target": I686, "scenarios": 0, "schedules": 0, "schedules_completed": 0, "skipped": 0, "note": ""}
    try:
        if setup is None or setup.wait(timeout=240):
            ev["note"] = "Miri has no 32-bit standard library here"; return ev
    except subprocess.TimeoutExpired:
        os.killpg(setup.pid, 9); ev["note"] = "Miri's 32-bit standard library did not build in time"; return ev
    with Lock(os.path.join(d, "miri32.lock")):
        todo = [(seed * 1200 + k, (seed * 1200 + k) * 32 % 65536) for k in range(n)]
        def one(x):
            sc, a = x
            if time.time() - t0 > lim:
                return None
            return sc, a, _miri(d, sc, (BASE % "0.1") + " -Zmiri-many-seeds=%d..%d" % (a, a + seeds), 240, "miri32")
        first = one(todo[0])
        from concurrent.futures import ThreadPoolExecutor
        rest = ThreadPoolExecutor(WORKERS).map(one, todo[1:]) if first[2][0] == 0 else []
        for r in [first] + list(rest):
            if r is None:
                ev["note"] = "cut short by time limit"; continue
            sc, a, (rc, out) = r
            ev["scenarios"] += 1; ev["schedules"] += seeds; ev["schedules_completed"] += out.count("SIM-OK")
            if rc == 0:
                continue
            if _why(out):
                for s in range(a, a + seeds):
                    flags = (BASE % "0.1") + " -Zmiri-seed=%d" % s
                    rc, o = _miri(d, sc, flags, 120, "miri32")
                    if rc and _why(o):
                        f = os.path.join(repdir, "C06-miri.plan")
                        open(f, "w").write("simmiri 1\ncrate miri32\nscenario %d\nflags %s\n# %s\n" % (sc, flags, _why(o)) + "".join("# " + x + "\n" for x in o.splitlines()[-60:]))
                        raise Found("MIRI", f, _why(o), None)
            ev["skipped"] += 1; ev["note"] = "not decided under Miri: " + out[-300:]
    ev["wall_s"] = round(time.time() - t0, 1)
    log("  lane %-22s %8d schedules %5.1f s" % ("miri, 32-bit stdcall", ev["schedules_completed"], ev["wall_s"]))
    return ev


def _why(out):
    for ln in out.splitlines():
        if BAD.search(ln):
            return ln.strip()[:500]
    return None


def run_miri(d, tier, seed, repdir):
    t0 = time.time(); n = 40 if tier == "quick" else 800; seeds = 16 if tier == "quick" else 64
    lim = 90 if tier == "quick" else 1500
    ev = {"scenarios": 0, "schedules": 0, "schedules_completed": 0, "skipped": 0, "note": ""}
    with Lock(os.path.join(d, "miri.lock")):
        for k in range(n):
            if time.time() - t0 > lim:
                ev["note"] = "cut short by time limit"
                break
            sc = seed * 1000 + k; rate = ("0.05", "0.2", "0.01", "0.5")[k % 4]; a = (sc * 64) % 65536
            rc, out = _miri(d, sc, (BASE % rate) + " -Zmiri-many-seeds=%d..%d" % (a, a + seeds), 240 if k == 0 else 90)
            ev["scenarios"] += 1; ev["schedules"] += seeds; ev["schedules_completed"] += out.count("SIM-OK")
            if rc == 0:
                continue
            why = _why(out)
            if why:
                for s in range(a, a + seeds):
                    flags = (BASE % rate) + " -Zmiri-seed=%d" % s
                    rc, o = _miri(d, sc, flags, 90)
                    if rc and _why(o):
                        f = os.path.join(repdir, "C01-miri.plan")
                        open(f, "w").write("simmiri 1\nscenario %d\nflags %s\n# %s\n" % (sc, flags, _why(o)) + "".join("# " + x + "\n" for x in o.splitlines()[-60:]))
                        raise Found("MIRI", f, _why(o), None)
            ev["skipped"] += 1; ev["note"] = "not decided under Miri: " + out[-300:]
            if k == 0 and "SIM-OK" not in out:
                break # tool not usable here
    ev["wall_s"] = round(time.time() - t0, 1)
    log("  lane %-22s %8d schedules %5.1f s" % ("miri", ev["schedules_completed"], ev["wall_s"]))
    return ev


def replay(d, path):
    t = open(path).read(); sc = re.search(r"^scenario (\d+)", t, re.M).group(1); fl = re.search(r"^flags (.*)$", t, re.M).group(1)
    cr = "miri32" if re.search(r"^crate miri32", t, re.M) else "miri"
    rc, o = _miri(d, sc, fl, 400, cr)
    log("REPLAY %s" % (_why(o) or "none")); return 1 if rc and _why(o) else 0
