"""Building, locating and running the simulator."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
STABLE = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
WORKERS = max(1, min(8, len(os.sched_getaffinity(0))))


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout=None, env=None, cwd=None, check=False):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return 124, out
    if check and p.returncode:
        raise HarnessError("%s failed (%d):\n%s" % (" ".join(cmd), p.returncode, out[-4000:]))
    return p.returncode, out


def _hash_tree(h, root, exts=None):
    if os.path.isfile(root):
        h.update(root.encode()); h.update(open(root, "rb").read()); return
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ("target", "__pycache__", ".git"))
        for f in sorted(fs):
            if exts and not f.endswith(exts):
                continue
            p = os.path.join(d, f)
            h.update(p.encode())
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass


def key(parts):
    h = hashlib.sha256()
    for p in parts:
        _hash_tree(h, os.path.join(REPO, p[6:]) if p.startswith("/repo/") else p)
    return h.hexdigest()[:16]


REPO_PARTS = ["/repo/src", "/repo/Cargo.toml"]


def build_dir():
    k = key(REPO_PARTS + ["/repo/python", "/repo/build.rs"][:1] + [os.path.join(VERIF, d) for d in ("sim", "shim", "pymod", "miri", "miri32", "driver")] + [os.path.join(VERIF, "check.py")])
    d = os.path.join(BUILD, k)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    # throw away the builds of other trees
    try:
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if re.fullmatch(r"[0-9a-f]{16}", n) and p != d and time.time() - os.stat(p).st_mtime > 1800:
                shutil.rmtree(p, ignore_errors=True)
    except OSError:
        pass
    return d


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def cargo_env(extra=None):
    e = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTUP_TOOLCHAIN": STABLE}
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
        if k in os.environ:
            e[k] = ""
    if extra:
        e.update(extra)
    return {k: v for k, v in e.items()}


def build_host(d):
    out = os.path.join(d, "simhost")
    with Lock(os.path.join(d, "host.lock")):
        if os.path.exists(out):
            return out
        procs = []
        for f in ("runtime", "plan", "gen", "main"):
            procs.append((f, subprocess.Popen(["g++", "-O2", "-std=c++20", "-pthread", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w", "-c", os.path.join(VERIF, "sim", f + ".cpp"), "-o", os.path.join(d, f + ".o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for f, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise HarnessError("compiling sim/%s.cpp: %s" % (f, o[-3000:]))
        run(["g++", "-rdynamic", "-pthread", "-o", out + ".tmp"] + [os.path.join(d, f + ".o") for f in ("runtime", "plan", "gen", "main")] + ["-ldl"], check=True)
        os.rename(out + ".tmp", out)
    return out


def patchlist(so, out):
    rc, txt = run(["objdump", "-d", "--no-show-raw-insn", "-w", so])
    rc2, raw = run(["objdump", "-d", "-w", so])
    n = 0
    with open(out, "w") as f:
        for ln in raw.splitlines():
            m = re.match(r"\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*\t?\s*(cpuid|rdtscp|rdtsc|rdrand|rdseed|xgetbv)\b", ln)
            if m:
                f.write("%s %s %d\n" % (m.group(1), m.group(3), len(m.group(2).split()))); n += 1
    return n


class Built:
    """so, patch list, and whether the C surface is there"""
    pass


def stdcall_source(d):
    """/repo and the shim, copied, with the stdcall calling convention (which x86-64 does not have) replaced by the C one,
    so that the functions of the stdcall feature run in the simulator like those of the cdecl feature. Nothing else changes."""
    t = os.path.join(d, "stdcall")
    with Lock(os.path.join(d, "stdcall.lock")):
        if not os.path.exists(os.path.join(t, "done")):
            shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            shutil.copytree(REPO, os.path.join(t, "repo"), ignore=shutil.ignore_patterns("target", ".git", "__pycache__", "*.dll", "*.so", "*.pyd"))
            for root, ds, fs in os.walk(os.path.join(t, "repo", "src")):
                for f in fs:
                    if f.endswith(".rs"):
                        q = os.path.join(root, f); x = open(q, encoding="utf-8", errors="surrogateescape").read()
                        y = re.sub(r'(feature\s*=\s*)?"stdcall(-unwind)?"', lambda m: m.group(0) if m.group(1) else '"C%s"' % (m.group(2) or ""), x)
                        if y != x:
                            open(q, "w", encoding="utf-8", errors="surrogateescape").write(y)
            shutil.copytree(os.path.join(VERIF, "shim"), os.path.join(t, "shim"), ignore=shutil.ignore_patterns("target"))
            q = os.path.join(t, "shim", "Cargo.toml"); x = open(q).read()
            x = x.replace('cdecl = ["seuif97/cdecl"]', 'cdecl = ["seuif97/stdcall"]').replace('path = "/repo"', 'path = "%s"' % os.path.join(t, "repo"))
            open(q, "w").write(x); open(os.path.join(t, "done"), "w").close()
    return os.path.join(t, "shim", "Cargo.toml")


def build_shim(d, kind, stdcall=False):
    """kind: instr | native. The C surface is included when the cdecl (or stdcall) feature compiles."""
    b = Built(); b.kind = kind; b.cdecl_error = None; b.stdcall = stdcall
    manifest = stdcall_source(d) if stdcall else os.path.join(VERIF, "shim", "Cargo.toml")
    t = os.path.join(d, kind + ("-stdcall" if stdcall else ""))
    os.makedirs(t, exist_ok=True)
    with Lock(t + ".lock"):
        meta = os.path.join(t, "built.json")
        if not os.path.exists(meta):
            t0 = time.time()
            cmd = ["cargo", "build", "--offline", "--locked", "--lib", "--manifest-path", manifest, "--target-dir", os.path.join(t, "target")]
            if kind == "instr":
                cmd += ["--profile", "sim", "--target", TRIPLE]
                env = cargo_env({"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Cllvm-args=-tsan-instrument-read-before-write=1"})
                so = os.path.join(t, "target", TRIPLE, "sim", "libsimshim.so")
            else:
                cmd += ["--release"]
                env = cargo_env()
                so = os.path.join(t, "target", "release", "libsimshim.so")
            rc, out = run(cmd + ["--features", "cdecl"], timeout=600, env=env)
            cerr = None
            if rc:
                cerr = out[-3000:]
                rc, out = run(cmd, timeout=600, env=env)
                if rc:
                    raise HarnessError("the library does not build:\n" + out[-4000:])
            dst = os.path.join(t, "libsimshim.so")
            shutil.copy(so, dst)
            n = patchlist(dst, os.path.join(t, "patch"))
            json.dump({"cdecl_error": cerr, "patched_instructions": n, "build_s": round(time.time() - t0, 1)}, open(meta + ".tmp", "w"))
            os.rename(meta + ".tmp", meta)
        m = json.load(open(meta))
    b.so = os.path.join(t, "libsimshim.so"); b.patch = os.path.join(t, "patch"); b.cdecl_error = m["cdecl_error"]; b.meta = m
    return b


def build_clib(d):
    """The C library itself, built the way its users build it. None when that is not possible here."""
    t = os.path.join(d, "clib"); os.makedirs(t, exist_ok=True)
    out = os.path.join(t, "libseuif97.so")
    with Lock(os.path.join(d, "clib.lock")):
        if not os.path.exists(out):
            had = os.path.exists(os.path.join(REPO, "Cargo.lock"))
            rc, o = run(["cargo", "rustc", "--offline", "--lib", "--release", "--features", "cdecl", "--crate-type", "cdylib", "--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", os.path.join(t, "target")], timeout=600, env=cargo_env())
            if not had:
                try:
                    os.unlink(os.path.join(REPO, "Cargo.lock"))
                except OSError:
                    pass
            so = os.path.join(t, "target", "release", "libseuif97.so")
            if rc or not os.path.exists(so):
                return None, o[-2000:]
            shutil.copy(so, out)
    return out, None


def missing_symbols(so):
    rc, o = run(["nm", "-D", "--defined-only", so])
    have = {ln.split()[-1] for ln in o.splitlines() if ln.split()}
    return [f for f in ("pt", "ph", "ps", "pv", "tv", "th", "ts", "hs", "px", "tx", "hx", "sx") if f not in have]
