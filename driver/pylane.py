"""C07: the Python package (extension module and pure Python forwards) under the simulator of pysim.py."""
import json, os, shutil, subprocess, sys, time
from .common import *
from .lanes import Found

PY = "/usr/bin/python3"
REAL = "the Python package as shipped (its .py files and the pyo3 extension module compiled from /repo with feature python), CPython with its interpreter lock, the garbage collector, Rust std, glibc"
STUB = "which Python thread runs and where it is preempted (at every bytecode of the package and at every shared access of the extension while the interpreter lock is released), threading.Lock/RLock and futex waits, time.sleep, asynchronous exceptions, signal-handler-like nested calls, garbage collection points, the argument objects"
# control packages: how /repo's package is wrapped, and whether the campaign must notice
CONTROLS = {
    "state shared between threads": (True, """
PRELUDE
_last = [0.0, 0.0]
def pt(a, b, o):
    _last[0] = float(a); _last[1] = float(b)
    return _r.pt(_last[0], _last[1], o)
def _w(n):
    f = getattr(_r, n)
    def g(a, b):
        _last[0] = float(a)
        _last[1] = float(b)
        return f(_last[0], _last[1])
    return g
for _n in dir(_r):
    if len(_n) == 4 and _n[2] == '2':
        globals()[_n] = _w(_n)
"""),
    "lock left held by an interrupted call": (True, """
PRELUDE
import threading
_l = threading.Lock()
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        _l.acquire()
        r = f(a, b, *o)
        _l.release()
        return r
    return g
for _n in dir(_r):
    if _n[:1] != '_' and callable(getattr(_r, _n)) and _n.islower() and len(_n) in (2, 4):
        globals()[_n] = _w(_n)
"""),
    "cache with a rounded key": (True, """
PRELUDE
_c = {}
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        try:
            k = (n, round(a, 5), round(b, 5)) + o
        except Exception:
            return f(a, b, *o)
        if k not in _c:
            _c[k] = f(a, b, *o)
        return _c[k]
    return g
for _n in dir(_r):
    if _n[:1] != '_' and callable(getattr(_r, _n)) and _n.islower() and len(_n) in (2, 4):
        globals()[_n] = _w(_n)
"""),
    "correct lock and exact cache": (False, """
PRELUDE
import threading
_l = threading.RLock(); _c = {}
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        r = f(a, b, *o)
        with _l:
            _c[n, a, b, o] = r
        return r
    return g
for _n in dir(_r):
    if _n[:1] != '_' and callable(getattr(_r, _n)) and _n.islower() and len(_n) in (2, 4):
        globals()[_n] = _w(_n)
"""),
}

WRAP = """
for _n in dir(_r):
    if _n[:1] != '_' and callable(getattr(_r, _n)) and _n.islower() and len(_n) in (2, 4):
        globals()[_n] = _w(_n)
"""
LOCKED = """
PRELUDE
import threading, os
_l = threading.Lock()
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        with _l:
            return f(a, b, *o)
    return g
""" + WRAP
# the Python lane of a property: name, build, mode, batches, runs of each, time limit
EXTRA = {
    "C01": ("Python threads", "instr", "threads", 480, 10, 30),
    "C02": ("Python histories", "plain", "sweep", 160, 4000, 30),
    "C03": ("Python handlers", "instr", "handlers", 480, 10, 30),
    "C04": ("Python stalled threads", "instr", "stalls", 480, 10, 30),
    "C05": ("Python environments", "instr", "env", 480, 10, 30),
    "C08": ("Python control state", "instr", "fp", 480, 10, 30),
    "C09": ("Python bad readings", "instr", "bad", 480, 10, 30),
    "C10": ("Python forks and exits", "instr", "forks", 480, 10, 40),
    "C20": ("Python processes", "plain", "trace", 180, 20000, 70),
    "C21": ("Python calls cut short", "instr", "cuts", 480, 10, 30),
}
CONTROLS_OF = {
    "C01": {k: CONTROLS[k] for k in ("state shared between threads", "correct lock and exact cache")},
    "C02": {k: CONTROLS[k] for k in ("cache with a rounded key", "correct lock and exact cache")},
    "C03": {"lock held across a call": (True, LOCKED), "correct lock and exact cache": CONTROLS["correct lock and exact cache"]},
    "C04": {"lock held across a call": (True, LOCKED)},
    "C05": {"environment variable": (True, """
PRELUDE
import os
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        return f(a, b, *o) * (1 if 'IF97_SCALE' not in os.environ else 2)
    return g
""" + WRAP), "clock and standard output": (True, """
PRELUDE
import time
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        t = time.perf_counter()
        r = f(a, b, *o)
        return r if time.perf_counter() - t < 1 else -1.0
    return g
""" + WRAP)},
    "C08": {"rounding mode": (True, """
PRELUDE
import ctypes
_m = ctypes.CDLL('libm.so.6')
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        k = _m.fegetround()
        _m.fesetround(0)
        r = f(a, b, *o)
        _m.fesetround(k)
        return r
    return g
""" + WRAP)},
    "C09": {"a reading that raises": (True, """
PRELUDE
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        if a != a:
            raise ValueError('not a number')
        return f(a, b, *o)
    return g
""" + WRAP)},
    "C21": {"lock left held by an interrupted call": CONTROLS["lock left held by an interrupted call"], "correct lock and exact cache": CONTROLS["correct lock and exact cache"]},
    "C10": {"lock held across a call": (True, LOCKED), "lock held across a call and renewed after a fork": (False, LOCKED + "os.register_at_fork(after_in_child=_l._at_fork_reinit)\n")},
    "C20": {"cache that grows without bound": (True, """
PRELUDE
_c = {}
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        k = a, b, o, n
        if k not in _c:
            _c[k] = f(a, b, *o)
        return _c[k]
    return g
""" + WRAP), "bounded cache": (False, """
PRELUDE
_c = {}
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        k = a, b, o, n
        r = _c.get(k)
        if r is None:
            r = f(a, b, *o)
            if len(_c) > 100:
                _c.clear()
            _c[k] = r
        return r
    return g
""" + WRAP), "decimal context left changed": (True, """
PRELUDE
import decimal
def _w(n):
    f = getattr(_r, n)
    def g(a, b, *o):
        if n == 'ph':
            decimal.getcontext().prec = 17
        return f(a, b, *o)
    return g
""" + WRAP)}}


def build_pymod(d, kind):
    """kind: instr | plain. Returns (directory for sys.path, build error)"""
    t = os.path.join(d, "py-" + kind); os.makedirs(t, exist_ok=True); meta = os.path.join(t, "built.json")
    with Lock(os.path.join(d, "py-%s.lock" % kind)):
        if not os.path.exists(meta):
            cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(VERIF, "pymod", "Cargo.toml"), "--target-dir", os.path.join(t, "target")]
            if kind == "instr":
                cmd += ["--profile", "sim", "--features", "hub", "--target", TRIPLE]
                env = cargo_env({"PYO3_PYTHON": PY, "RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=-Wl,--wrap=PyEval_SaveThread -Clink-arg=-Wl,--wrap=PyEval_RestoreThread"})
                so = os.path.join(t, "target", TRIPLE, "sim", "libsimpymod.so")
            else:
                cmd += ["--release"]; env = cargo_env({"PYO3_PYTHON": PY}); so = os.path.join(t, "target", "release", "libsimpymod.so")
            rc, out = run(cmd, timeout=600, env=env)
            if rc:
                return None, out[-4000:]
            pk = os.path.join(t, "seuif97"); shutil.rmtree(pk, ignore_errors=True); os.makedirs(pk)
            src = os.path.join(REPO, "python", "seuif97")
            for r, ds, fs in os.walk(src):
                ds[:] = [x for x in ds if x != "__pycache__"]
                for f in fs:
                    if f.endswith((".so", ".pyd", ".pyc")):
                        continue
                    q = os.path.join(pk, os.path.relpath(os.path.join(r, f), src)); os.makedirs(os.path.dirname(q), exist_ok=True); shutil.copy(os.path.join(r, f), q)
            shutil.copy(so, os.path.join(pk, "seuif97.so"))
            shutil.rmtree(os.path.join(t, "target"), ignore_errors=True)
            json.dump({}, open(meta, "w"))
    return t, None


def build_hub(d):
    out = os.path.join(d, "libhub.so")
    with Lock(os.path.join(d, "hub.lock")):
        if not os.path.exists(out):
            run(["g++", "-O2", "-shared", "-fPIC", "-std=c++20", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-o", out + ".tmp", os.path.join(VERIF, "pymod", "hub.cpp"), "-ldl"], check=True)
            os.rename(out + ".tmp", out)
    return out


def control_pkg(d, name, body, base):
    t = os.path.join(d, "pyctl-" + "".join(c if c.isalnum() else "_" for c in name)); pk = os.path.join(t, "seuif97")
    if not os.path.exists(os.path.join(pk, "done")):
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(pk)
        pre = "import sys\n_me = sys.modules.pop('seuif97')\nsys.path.insert(0, %r)\nimport seuif97 as _r\nsys.path.pop(0)\nsys.modules['seuif97'] = _me\nfor _n in dir(_r):\n    if _n[:1] != '_':\n        globals()[_n] = getattr(_r, _n)\n" % base
        open(os.path.join(pk, "__init__.py"), "w").write(body.replace("PRELUDE\n", pre)); open(os.path.join(pk, "done"), "w").close()
    return t


def pysim(d, hub, so, pkg, args, hashseed="0", timeout=None, popen=None, more=None):
    env = dict(os.environ, LD_PRELOAD=hub, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1")
    for k in ("PYTHONPATH", "PYTHONHOME", "PYTHONSTARTUP"):
        env.pop(k, None)
    env.update(more or {})
    cmd = [PY, "-W", "ignore::DeprecationWarning", "-s", "-B", os.path.join(VERIF, "driver", "pysim.py"), "--hub", hub, "--shim", so, "--pkg", pkg] + [str(x) for x in args]
    if popen:
        return subprocess.Popen(cmd, stdout=open(popen, "w"), stderr=subprocess.STDOUT, env=env, start_new_session=True, cwd="/")
    return run(cmd, timeout=timeout, env=env, cwd="/")


def more_env(mode):
    return {"PYTHONMALLOC": "malloc"} if mode == "trace" else None # every object from the one heap whose use is measured


class PyCampaign:
    def __init__(self, d, hub, so, repdir, seed, prop="C07"):
        self.d, self.hub, self.so, self.repdir, self.seed, self.prop = d, hub, so, repdir, seed, prop
        self.lanes = []; self.tot = {}; self.fired = {}; self.distinct = set(); self.samples = []; self.unconfirmed = []

    def lane(self, name, pkg, build, mode, batches, runs, tlimit):
        t0 = time.time(); procs = []
        cpus = sorted(os.sched_getaffinity(0))
        for w in range(WORKERS):
            v = os.path.join(self.repdir, "%s-py-%s-%d" % (self.prop, mode, w)); o = os.path.join(self.d, "pyout-%s-%d-%d" % (mode, os.getpid(), w))
            for x in (v + ".plan", o):
                if os.path.exists(x):
                    os.unlink(x)
            p = pysim(self.d, self.hub, self.so, pkg, ["--seed", self.seed, "--frm", w, "--to", batches, "--stride", WORKERS, "--runs", runs, "--mode", mode, "--tlimit", tlimit, "--viol", v, "--out", o, "--build", build, "--digests", 0], hashseed=w, popen=v + ".out", more=more_env(mode))
            try:
                os.sched_setaffinity(p.pid, {cpus[w % len(cpus)]})
            except OSError:
                pass
            procs.append((p, v, o))
        found = bad = None; agg = {}
        deadline = t0 + tlimit + 300
        for p, v, o in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait(); bad = bad or "worker did not finish"
            txt = open(v + ".out", errors="replace").read()
            for ln in txt.splitlines():
                if ln.startswith("FOUND ") and not found:
                    _, cls, path, msg = ln.split(" ", 3); found = (cls, path, msg)
            if p.returncode and not bad:
                bad = "simulator error %s: %s" % (p.returncode, txt[-1500:])
            if os.path.exists(o):
                s = json.load(open(o)); os.unlink(o)
                self.distinct.update(s.pop("distinct")); self.samples += s.pop("samples")[:1]
                for k, n in s.pop("fired").items():
                    self.fired[k] = self.fired.get(k, 0) + n
                for k, n in s.items():
                    agg[k] = max(agg.get(k, 0), n) if k in ("elapsed", "max_kept_bytes") else agg.get(k, 0) + n
            os.unlink(v + ".out")
        el = time.time() - t0
        for k, n in agg.items():
            self.tot[k] = self.tot.get(k, 0) + n
        self.lanes.append({"lane": name, "library_build": build, "mode": mode, "wall_s": round(el, 1), "runs": agg.get("runs", 0), "seeds": agg.get("batches", 0), "runs_per_hour": int(agg.get("runs", 0) * 3600 / max(el, .1)), "seeds_per_hour": int(agg.get("batches", 0) * 3600 / max(el, .1)), "cut_short_by_time_limit": bool(agg.get("truncated")), **{k: v for k, v in agg.items() if k not in ("runs", "batches", "elapsed", "truncated") and v}})
        log("  lane %-22s %8d runs %9.1f s%s" % (name, agg.get("runs", 0), el, "  VIOLATION" if found else ""))
        if found:
            cls, path, msg = found
            with open(path, "a") as f:
                f.write("# replay: python3 /verif/check.py replay %s\n" % path)
            for k in range(3):
                rc, out = replay_in(self.d, self.hub, self.so, pkg, path)
                if rc == 1:
                    raise Found(cls, path, msg, None)
            self.unconfirmed.append({"class": cls, "message": msg, "replay": path, "why": out[-300:]})
            log("  (not reproduced in a fresh process, not reported: %s %s)" % (cls, msg[:300]))
        elif bad:
            raise HarnessError(bad)


def replay_in(d, hub, so, pkg, path):
    j = json.loads(open(path).read().split("\n", 2)[1])
    return pysim(d, hub, so, pkg, ["--replay", path, "--viol", path + ".again"], hashseed=j.get("hashseed", "0"), timeout=400, more=more_env(j["kind"]))


def setup(d):
    so = build_shim(d, "native").so; hub = build_hub(d); out = {}
    for k in ("instr", "plain"):
        out[k] = build_pymod(d, k)
    return so, hub, out


def extra(prop, tier, seed, d, repdir):
    """the Python lane of another property"""
    q = tier == "quick"; so, hub, pk = setup(d); c = PyCampaign(d, hub, so, repdir, seed, prop)
    if pk["plain"][1] or pk["instr"][1]:
        c.controls = []
        return c # C07 reports that
    name, build, mode, batches, runs, tl = EXTRA[prop]
    c.lane(name, pk[build][0], build, mode, batches if q else batches * 12, runs, tl if q else tl * 12)
    c.controls = []
    for name, (want, body) in CONTROLS_OF[prop].items():
        cp = control_pkg(d, prop + name, body, pk["plain"][0]); ok = False; what = "not seen"
        for s in range(3 if want else 1):
            rc, o = pysim(d, hub, so, cp, ["--seed", 11 + s, "--frm", 0, "--to", 12, "--runs", {"trace": 12000, "sweep": 4000}.get(mode, 12), "--mode", mode, "--tlimit", 15, "--viol", os.path.join(repdir, prop + "-py-control"), "--out", os.path.join(d, "pyctl.out"), "--build", "plain", "--digests", 0], timeout=120, more=more_env(mode))
            hit = [x for x in o.splitlines() if x.startswith("FOUND ")]
            if rc:
                what = "simulator error " + o[-300:]
                break
            what = hit[0].split(" ")[1] if hit else "quiet"
            if bool(hit) == want:
                ok = True
                break
        c.controls.append({"package": name, "expected": "noticed" if want else "quiet", "ok": ok, "outcome": what})
    return c


def decide(tier, seed, write_evidence):
    t0 = time.time(); d = build_dir(); repdir = os.path.join(VERIF, "build", "replay"); os.makedirs(repdir, exist_ok=True)
    found = None; controls = []; extra = {}; q = tier == "quick"
    so, hub, pk = setup(d)
    c = PyCampaign(d, hub, so, repdir, seed)
    try:
        for k in ("plain", "instr"):
            if pk[k][1]:
                f = os.path.join(repdir, "C07-build.txt"); open(f, "w").write("simpy-build\n" + pk[k][1])
                if "hub_gil" in pk[k][1] or "tsan" in pk[k][1]:
                    raise HarnessError(pk[k][1])
                raise Found("BUILD", f, "the package's extension module does not build: " + pk[k][1][-400:].replace("\n", " "), None)
        pi, pp = pk["instr"][0], pk["plain"][0]
        c.lane("threads and faults", pi, "instr", "plans", 960 if q else 20000, 12, 110 if q else 1500)
        c.lane("threads, shipped code", pp, "plain", "plans", 240 if q else 4000, 12, 40 if q else 400)
        c.lane("histories", pp, "plain", "sweep", 160 if q else 4000, 4000, 60 if q else 600)
        for name, (want, body) in CONTROLS.items():
            cp = control_pkg(d, name, body, pp); ok = False; what = "not seen"
            v = os.path.join(repdir, "C07-control")
            for s in range(3 if want else 1):
                rc, o = pysim(d, hub, so, cp, ["--seed", 11 + s, "--frm", 0, "--to", 12, "--runs", 12, "--tlimit", 30, "--viol", v, "--out", os.path.join(d, "pyctl.out"), "--build", "plain", "--digests", 0], timeout=120)
                hit = [x for x in o.splitlines() if x.startswith("FOUND ")]
                if rc:
                    what = "simulator error " + o[-300:]
                    break
                if hit:
                    what = hit[0].split(" ")[1]
                if bool(hit) == want:
                    ok = True; what = what if hit else "quiet"
                    break
            controls.append({"package": name, "expected": "noticed" if want else "quiet", "ok": ok, "outcome": what})
        dg = []
        for k in range(2):
            rc, o = pysim(d, hub, so, pi, ["--seed", seed, "--frm", 0, "--to", 4, "--runs", 6, "--viol", os.path.join(repdir, "C07-det"), "--out", os.path.join(d, "pydet.out"), "--digests", 1], timeout=200)
            dg.append([x for x in o.splitlines() if x.startswith("DIGEST")])
        extra["determinism_self_test"] = {"seeds_repeated": len(dg[0]), "identical": dg[0] == dg[1] and len(dg[0]) > 0}
    except Found as f:
        found = f
    extra["control_packages"] = controls
    cov = {"evaluations": c.tot.get("runs", 0), "distinct_nontrivial": len(c.distinct),
           "rule": "One evaluation is one forked Python interpreter that imports the package and runs a plan generated from one seed: 1-4 Python threads calling the 60 functions with valid, colliding, corrupted and wrongly typed arguments, with thread switches, asynchronous exceptions, nested handler calls, garbage collections at chosen bytecodes, and (sweep lane) a history of 4000 calls; each returned float is compared with the Rust function called alone in a fresh process (in the sweep: called in the same process through a separate copy of the library), tolerance 1e-10 relative. Distinct = different hash over every thread switch, injected fault and its position, operation and returned value; plans without a usable operation are dropped before they count.",
           "samples": c.samples[:4], "lanes": c.lanes, "totals": {k: v for k, v in c.tot.items() if k != "elapsed"}, "simulated_steps": c.tot.get("points", 0), "simulated_time_ns": 0,
           "faults_injected": c.fired, "components_real": REAL, "components_stub": STUB, "unconfirmed_reports": c.unconfirmed, **extra}
    write_evidence("C07", tier, cov, t0, 1 if found else 0, ["CPython %s with its interpreter lock" % sys.version.split()[0], "Python threads switch only at bytecode boundaries of the package's own code, between calls, and while the lock is released", "the C math library, CPython and pyo3 are trusted"])
    if found:
        log("%s: %s" % (found.cls, found.msg)); log("VIOLATION property=C07 replay=%s" % found.path)
        return 1
    bad = [x for x in controls if not x["ok"]]
    if bad:
        log("control packages not as expected: %s" % bad)
        return 2
    log("property C07 held on everything explored (%d runs, %.0f s)" % (c.tot.get("runs", 0), time.time() - t0))
    return 0


def replay(path):
    d = build_dir()
    txt = open(path).read()
    so, hub, pk = setup(d)
    if txt.startswith("simpy-build"):
        bad = pk["plain"][1] or pk["instr"][1]
        log("REPLAY %s" % (bad or "none")); return 1 if bad else 0
    j = json.loads(txt.split("\n", 2)[1]); k = "instr" if j["build"] == "instr" else "plain"
    if pk[k][1]:
        raise HarnessError(pk[k][1])
    rc, o = replay_in(d, hub, so, pk[k][0], path); log(o.strip()); return rc
