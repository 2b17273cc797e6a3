"""Running campaigns of the simulator on all cores and adding up what they covered."""
import json, os, re, subprocess, time
from .common import *


MAXED = ("max_points_per_call", "max_stack_bytes", "max_kept_bytes")


class Found(Exception):
    def __init__(self, cls, path, msg, env):
        self.cls, self.path, self.msg, self.env = cls, path, msg, env


def simhost(host, b, args, env=None, timeout=None):
    return run([host, "--so", b.so, "--patch", b.patch] + [str(a) for a in args], timeout=timeout, env=env)


class Campaign:
    def __init__(self, d, host, prop, seed, repdir):
        self.d, self.host, self.prop, self.seed, self.repdir = d, host, prop, seed, repdir
        self.lanes = []; self.hashes = set(); self.tot = {}; self.fired = {}; self.unconfirmed = []
        self.samples = []

    def lane(self, name, b, mode, batches, runs, tlimit, engine=None, env=None, extra=(), seed_off=0):
        engine = engine or ("native" if b.kind == "native" else "instr")
        t0 = time.time(); procs = []
        for w in range(WORKERS):
            v = os.path.join(self.repdir, "%s-%s-%d" % (self.prop, re.sub(r"[^A-Za-z0-9]+", "-", name), w))
            try:
                os.unlink(v + ".plan")
            except OSError:
                pass
            hf = os.path.join(self.d, "hash-%s-%s-%d-%d" % (self.prop, re.sub(r"[^A-Za-z0-9]+", "-", name), os.getpid(), w))
            cmd = [self.host, "--so", b.so, "--patch", b.patch, "--prop", self.prop, "--engine", engine, "--seed", str(self.seed + seed_off), "--from", str(w), "--to", str(batches), "--stride", str(WORKERS), "--runs", str(runs), "--mode", str(mode), "--cpu", str(sorted(os.sched_getaffinity(0))[w]), "--viol", v, "--tlimit", str(tlimit), "--hashes", hf] + [str(x) for x in extra]
            e = dict(os.environ); e.update(env or {})
            procs.append((subprocess.Popen(cmd, stdout=open(v + ".out", "w"), stderr=subprocess.STDOUT, env=e, start_new_session=True), v, hf))
        found = None; bad = None; st = []
        deadline = t0 + tlimit + 330
        for p, v, hf in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait(); bad = bad or "worker did not finish: " + v
            txt = open(v + ".out", errors="replace").read()
            for ln in txt.splitlines():
                if ln.startswith("FOUND ") and not found:
                    _, cls, rest = ln.split(" ", 2); path, msg = rest.split(".plan ", 1); found = (cls, path + ".plan", msg)
                elif ln.startswith("STATS "):
                    st.append(json.loads(ln[6:]))
            if p.returncode not in (0, 1) and not bad:
                bad = "simulator error %s in %s: %s" % (p.returncode, v, txt[-500:])
            if os.path.exists(hf):
                data = open(hf, "rb").read(); os.unlink(hf)
                self.hashes.update(data[i:i + 8] + bytes([len(self.lanes)]) for i in range(0, len(data), 8))
            try:
                os.unlink(v + ".out")
            except OSError:
                pass
        agg = {}
        for s in st:
            for k, x in s.items():
                if k == "fired":
                    for f, (n, r) in x.items():
                        a = self.fired.setdefault(f, [0, 0]); a[0] += n; a[1] += r
                elif k in ("elapsed",) + MAXED:
                    agg[k] = max(agg.get(k, 0), x)
                else:
                    agg[k] = agg.get(k, 0) + x
        el = time.time() - t0
        self.lanes.append({"lane": name, "engine": engine, "library_build": b.kind + (", stdcall feature" if b.stdcall else ""), "mode": {0: "plans", 1: "long histories", 2: "sweep", 3: "permuted histories", 4: "directed", 5: "measured sweep"}[mode], "wall_s": round(el, 1), "runs": agg.get("runs", 0), "seeds": agg.get("batches", 0), "runs_per_hour": int(agg.get("runs", 0) * 3600 / max(el, .1)), "seeds_per_hour": int(agg.get("batches", 0) * 3600 / max(el, .1)), "cut_short_by_time_limit": bool(agg.get("truncated")), **{k: v for k, v in agg.items() if k not in ("runs", "elapsed", "truncated", "fired") and v}})
        for k, x in agg.items():
            self.tot[k] = max(self.tot.get(k, 0), x) if k in MAXED else self.tot.get(k, 0) + x
        log("  lane %-22s %8d runs %9.1f s%s" % (name, agg.get("runs", 0), el, "  VIOLATION" if found else ""))
        if found:
            self.confirm(found, b, env)
        elif bad:
            raise HarnessError(bad)

    def confirm(self, found, b, env):
        cls, path, msg = found
        with open(path, "a") as f:
            f.write("# replay: python3 /verif/check.py replay %s\n# library build: %s%s\n" % (path, b.kind, " clib" if env and "SIM_CLIB" in env else " stdcall" if b.stdcall else ""))
        ok = 0
        for k in range(3):
            rc, out = simhost(self.host, b, ["--replay", path], env=dict(env or {}, SIM_CPU="30"), timeout=400)
            if rc == 1:
                ok = 1
                break
        if ok:
            raise Found(cls, path, msg, env)
        self.unconfirmed.append({"class": cls, "message": msg, "replay": path})
        log("  (not reproduced in a fresh process, not reported: %s %s)" % (cls, msg[:300]))


def canary_control(c, b, prop, canary, want, engine="instr", mode=0, batches=12, runs=25, env=None):
    """Does the campaign of this property see (want) or ignore (not want) a planted canary?"""
    v = os.path.join(c.repdir, "canary-%s-%d" % (prop, canary))
    for s in range(3):
        rc, out = simhost(c.host, b, ["--prop", prop, "--engine", engine, "--seed", 1 + s, "--from", 0, "--to", batches, "--runs", runs, "--mode", mode, "--canary", canary, "--viol", v, "--nomin", "1", "--tlimit", 40], timeout=150, env=env)
        if rc == 99:
            return False, "simulator error: " + out[-300:]
        hit = "FOUND" in out
        if hit == want:
            return True, out.split("FOUND ")[1].split(" ")[0] if hit else "quiet"
        if not want:
            return False, out[-300:]
    return False, "not seen"
