"""Simulated Python programs using the seuif97 package. One run = one forked interpreter = one plan.
Run by pylane.py under the system Python with the scheduler (hub) preloaded."""
import argparse, ctypes, dis, gc, hashlib, json, math, os, random, resource, signal, struct, sys, time, threading, _thread

BASE = ["pt", "ph", "ps", "pv", "tv", "th", "ts", "hs", "px", "tx", "hx", "sx"]
CONV = {"pt": "hsvx", "ph": "tsvx", "ps": "htvx", "hs": "ptvx", "pv": "thsx", "tv": "phsx", "th": "psvx", "ts": "phvx", "px": "thsv", "tx": "phsv", "hx": "ptsv", "sx": "pthv"}
IDS = {"p": 0, "t": 1, "v": 3, "h": 4, "s": 5, "x": 15}
NAMES = BASE + [b + "2" + c for b in BASE for c in CONV[b]]
# forms of a call: how the arguments are given
F_OK, F_INT, F_OBJ, F_RAISE, F_NONE, F_STR, F_FEW, F_MANY, F_BIGID, F_FLOATID, F_DEEP = range(11)
BADFORMS = (F_RAISE, F_NONE, F_STR, F_FEW, F_MANY, F_BIGID, F_FLOATID, F_DEEP)


BACK = {dis.opmap[x] for x in dis.opmap if x == "JUMP_BACKWARD"}
CALLS = {dis.opmap[x] for x in dis.opmap if x in ("CALL", "CALL_FUNCTION_EX", "CALL_KW")}


class SimAsync(BaseException):
    pass


def bits(v):
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def fnid(name, o):
    b = name[:2]
    return BASE.index(b), (o if len(name) == 2 else IDS[name[3]])


def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-10 * max(abs(a), abs(b))


class Sim:
    def __init__(self, a):
        self.a = a
        self.hub = ctypes.CDLL(a.hub)
        self.hub.hub_hash.restype = ctypes.c_uint64; self.hub.hub_steps.restype = ctypes.c_uint64; self.hub.hub_fired.restype = ctypes.c_uint32; self.hub.hub_said.restype = ctypes.c_char_p; self.hub.hub_fp.restype = ctypes.c_uint32
        self.shim = ctypes.CDLL(a.shim)
        self.shim.sim_call.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_double, ctypes.c_double, ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_double)]
        self.shim.sim_init()
        self.refs = {}
        self.st = {"runs": 0, "batches": 0, "calls": 0, "nested_calls": 0, "cut_short_calls": 0, "failed_calls": 0, "history_calls": 0, "points": 0, "reference_runs": 0, "minimiser_runs": 0, "distinct": set(), "fired": {"thread_switch": 0, "asynchronous_exception": 0, "handler_call": 0, "garbage_collection": 0, "interpreter_lock_released": 0, "failing_call": 0, "fork": 0, "forked_child_calls": 0, "calls_at_exit": 0, "stalled_thread": 0, "environment_changed": 0, "floating_point_mode_set": 0, "state_compared": 0}}
        self.samples = []

    # ---------------------------------------------------------------- oracle
    def rust(self, fn, x, y, o):
        v = ctypes.c_double(0)
        st = self.shim.sim_call(0, fn, x, y, o, 0, ctypes.byref(v))
        return None if st else v.value

    def forked(self, f, cpu=6, wall=90):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.close(r); signal.setitimer(signal.ITIMER_PROF, cpu); signal.alarm(wall)
                out = json.dumps(f()).encode()
                while out:
                    n = os.write(w, out); out = out[n:]
                code = 0
            except BaseException as e:
                try:
                    import traceback
                    os.write(w, ("!" + repr(e) + traceback.format_exc()).encode())
                except BaseException:
                    pass
            finally:
                os._exit(code)
        os.close(w); d = b""
        while True:
            k = os.read(r, 1 << 16)
            if not k:
                break
            d += k
        os.close(r)
        _, st = os.waitpid(pid, 0)
        return st, d

    def ref(self, op):
        """the Rust function's value, as the only call of a fresh process: (ok, value)"""
        fn, o = fnid(op[0], op[3]); k = (fn, bits(op[1]), bits(op[2]), o)
        if k in self.refs:
            return self.refs[k]
        self.st["reference_runs"] += 1
        st, d = self.forked(lambda: (lambda v: None if v is None else struct.pack("<d", v).hex())(self.rust(fn, op[1], op[2], o)))
        r = (False, 0.0)
        if st == 0 and d and d != b"null":
            r = (True, struct.unpack("<d", bytes.fromhex(json.loads(d)))[0])
        self.refs[k] = r
        return r

    # ---------------------------------------------------------------- plans
    def states(self, seed):
        def f():
            r = random.Random(seed); out = []
            while len(out) < 5:
                g = r.randrange(1, 6); x = r.random()
                if g == 4:
                    t = r.uniform(1, 370); p = self.rust(9, t, x, 0)
                    if p is None or not p > 0:
                        continue
                    q = [self.rust(9, t, x, i) for i in (3, 4, 5)]
                else:
                    t = {1: r.uniform(1, 349), 2: r.uniform(1, 799), 3: r.uniform(351, 589), 5: r.uniform(801, 1999)}[g]
                    p = {1: math.exp(r.uniform(-4, 4.6)), 2: math.exp(r.uniform(-7, 4.6)), 3: r.uniform(17, 100), 5: math.exp(r.uniform(-6, 3.9))}[g]
                    q = [self.rust(0, p, t, i) for i in (3, 4, 5)]
                if any(z is None or not math.isfinite(z) or z < -900 for z in q):
                    continue
                out.append([p, t] + q + [x])
            return out
        st, d = self.forked(f, 20)
        try:
            return json.loads(d)
        except ValueError:
            return [[3.0, 26.85, 0.00100215168, 115.331273, 0.392294792, 0.5]]

    def args(self, s, name):
        m = {"p": s[0], "t": s[1], "v": s[2], "h": s[3], "s": s[4], "x": s[5]}
        return m[name[0]], m[name[1]]

    def mk(self, r, s, name, o=None):
        x, y = self.args(s, name)
        if len(name) == 2 and o is None:
            o = r.choice([0, 1, 3, 4, 5, 15, 16, 8, 2]) if r.random() < .5 else r.randrange(0, 37)
        return [name, x, y, o if len(name) == 2 else None, F_OK]

    def pool(self, r, b):
        sts = self.states(r.random()); ops = [self.mk(r, sts[0], NAMES[b % len(NAMES)], (b // len(NAMES)) % 37)]
        n = r.randrange(4, 12); theme = r.randrange(4); first = ops[0]
        while len(ops) < n:
            k = theme if r.random() < .7 else r.randrange(4)
            if k == 0:   # one pair, every target
                a = self.mk(r, sts[0], r.choice([x for x in NAMES if x[:2] == first[0][:2]]))
            elif k == 1: # one state, every pair
                a = self.mk(r, sts[0], r.choice(NAMES))
            elif k == 2: # the same function, neighbouring or other states
                a = list(first); s = r.choice(sts)
                if r.random() < .5:
                    e = r.choice([0, 1e-15, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3]) * r.choice([-1, 1]); a[1] *= 1 + e
                    if r.random() < .5:
                        a[2] *= 1 - e
                    if r.random() < .2:
                        a[1] = round(a[1], r.randrange(1, 6)); a[2] = round(a[2], r.randrange(1, 6))
                else:
                    a[1], a[2] = self.args(s, a[0])
            else:
                a = self.mk(r, r.choice(sts), r.choice(NAMES))
            bad = self.a.mode == "bad"
            if r.random() < (.4 if bad else .12):
                a[1 + r.randrange(2)] = r.choice([float("nan"), float("inf"), -1.0, 0.0, -0.0, 1e300, 5e-324, 1.0, 1e9])
            if bad and r.random() < .3:
                i = 1 + r.randrange(2); a[i] = struct.unpack("<d", struct.pack("<Q", bits(a[i]) ^ 1 << r.randrange(64)))[0]
            if a[3] is not None and r.random() < (.2 if bad else .03):
                a[3] = r.choice([-1, 36, 99, 255, 256, 260, 32768, 65536, 65540, 2147483647, -2147483648])
            if r.random() < .05:
                a[1], a[2] = a[2], a[1]
            u = r.random()
            if u < .12:
                a[4] = r.choice(BADFORMS)
            elif u < .22:
                a[4] = F_OBJ
            elif u < .27:
                a[4] = F_INT; a[1] = float(round(a[1])) if math.isfinite(a[1]) and abs(a[1]) < 1e15 else a[1]
            ops.append(a)
        return [o for o in ops if o[4] in BADFORMS or self.ref(o)[0]]

    def plan(self, r, ops):
        n = r.choice([1, 2, 2, 3, 4]); idx = list(range(len(ops)))
        p = {"ops": ops, "threads": [[r.choice(idx) for _ in range(r.randrange(1, 6))] for _ in range(n)], "seqs": [[r.choice(idx) for _ in range(r.randrange(1, 3))] for _ in range(3)],
             "seed": r.getrandbits(60), "ps": r.choice([0, 1500, 6000, 20000, 45000, 65535]), "pr": r.choice([0, 0, 800, 4000]), "pn": r.choice([0, 800, 4000]), "pg": r.choice([0, 0, 500]), "psn": r.choice([100, 2000, 20000, 65535]), "pf": 0, "script": None}
        m = self.a.mode
        if m != "plans" and m != "cuts":
            p["pr"] = 0
        if m not in ("plans", "handlers", "cuts"):
            p["pn"] = 0; p["nonest"] = True
        if m == "threads" and n < 2:
            p["threads"].append(list(p["threads"][0]))
        if m == "threads":
            p["ps"] = r.choice([1500, 6000, 20000, 45000, 65535])
        if m == "handlers":
            p["threads"] = p["threads"][:1]; p["pn"] = r.choice([800, 4000, 12000])
        if m == "cuts":
            p["pr"] = r.choice([800, 4000, 9000])
        if m == "forks":
            p["pf"] = r.choice([300, 1500, 6000, 20000]); p["ps"] = r.choice([1500, 6000, 20000, 45000]); p["exits"] = r.choice([0, 0, 1])
        if m == "stalls":
            p["pk"] = r.choice([300, 1500, 6000, 20000]); p["ps"] = r.choice([1500, 6000, 20000, 45000]); p["maxpark"] = r.choice([1, 1, 2, 3])
            while len(p["threads"]) < 2 + p["maxpark"] - 1:
                p["threads"].append([r.choice(idx) for _ in range(r.randrange(1, 6))])
        if m == "env":
            p["env"] = 1 + r.getrandbits(40)
        if m == "fp":
            p["fp"] = 1 + r.getrandbits(40)
        return p

    def strange(self, seed):
        """another clock, random source, environment, number of CPUs, standard streams and interpreter settings"""
        import decimal
        r = random.Random(seed); rr = random.Random(seed + 1); big = [0.0, 1.0, 1e9, -1e9, 4e18, 1e-9]; now = [r.choice(big) + r.random()]

        def clock(scale=1, whole=False):
            def f(*a):
                now[0] += rr.choice([0, 0, 1e-6, 1e-3, .3, 5, 3600, -1, -3600, 1e7])
                return int(now[0] * scale) if whole else now[0] * scale
            return f
        for nm in ("time", "monotonic", "perf_counter", "process_time", "thread_time", "clock_gettime"):
            if r.random() < .8:
                setattr(time, nm, clock())
        for nm in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns", "thread_time_ns", "clock_gettime_ns"):
            if r.random() < .8:
                setattr(time, nm, clock(1e9, True))
        if r.random() < .7:
            for k in list(os.environ):
                if r.random() < .7 and k not in ("LD_PRELOAD",):
                    del os.environ[k]
        if r.random() < .7:
            v = ["1", "0", "", "true", "off", "debug", "-1", "1e999", "\udcff", "/nonexistent", "x" * 3000]; real = os.environ

            class Env(type(real)):
                def __getitem__(self, k):
                    return v[hash_(k) % len(v)]

                def get(self, k, d=None):
                    return self[k]

                def __contains__(self, k):
                    return True
            hash_ = lambda k: int(hashlib.sha1((repr(k) + str(seed)).encode()).hexdigest()[:8], 16)
            os.environ.__class__ = Env; os.getenv = lambda k, d=None: os.environ[k]
        if r.random() < .7:
            os.cpu_count = lambda: r.choice([None, 1, 2, 1024]); os.getpid = lambda: r.choice([1, 4194303]); os.urandom = lambda n: bytes(rr.randrange(256) for _ in range(n))
        if r.random() < .7:
            random.random = lambda: rr.choice([0.0, .5, 1 - 2 ** -53]); random.seed(r.random())
        if r.random() < .5:
            decimal.getcontext().prec = r.choice([1, 3, 100]); decimal.getcontext().traps[decimal.Inexact] = True
        if r.random() < .5:
            class Shut:
                def write(self, *a):
                    raise OSError(28, "No space left on device")
                flush = fileno = write
            z = r.choice([None, Shut()]); sys.stdout = z; sys.stderr = z; sys.stdin = None
        if r.random() < .3:
            gc.disable()
        if r.random() < .3:
            gc.set_threshold(1)
        if r.random() < .5:
            os.chdir("/")
        if r.random() < .5:
            for nm in ("open", "input"):
                setattr(__import__("builtins"), nm, lambda *a, **k: (_ for _ in ()).throw(OSError(r.choice([2, 13, 24, 28]), "fault")))

    # ---------------------------------------------------------------- one run (in a forked child)
    def body(self, p):
        hub = self.hub; n = len(p["threads"]); ops = p["ops"]; results = []; tls = threading.local()
        hub.hub_reset(n, ctypes.c_uint64(p["seed"]), p["ps"], p["pr"], p["pn"], p["pg"], p["psn"], len(p["seqs"]), ctypes.c_uint64(400000))
        hub.hub_forks(p.get("pf", 0), p.get("pk", 0), p.get("maxpark", 9 if p["script"] else 0)); exiting = []; fpr = random.Random(p.get("fp") or 0)
        for d in p["script"] or []:
            hub.hub_script(d[0], ctypes.c_uint32(d[1]), d[2], d[3])
        if p["script"] is not None and not p["script"]:
            hub.hub_script(99, 1, 0, 0)
        real_lock = _thread.allocate_lock

        def me():
            return getattr(tls, "id", -1)

        class SimLock:
            def __init__(self):
                self.l = real_lock()

            def acquire(self, blocking=True, timeout=-1):
                while True:
                    if self.l.acquire(False):
                        return True
                    if exiting and blocking and timeout < 0:
                        os._exit(41)
                    if not blocking or me() < 0 or timeout >= 0:
                        return False
                    hub.hub_point(me(), 3)

            def release(self):
                self.l.release()

            def locked(self):
                return self.l.locked()

            def _at_fork_reinit(self):
                self.l = real_lock()
            __enter__ = acquire

            def __exit__(self, *a):
                self.release()

        class SimRLock:
            def __init__(self):
                self.l = SimLock(); self.o = None; self.c = 0

            def acquire(self, blocking=True, timeout=-1):
                if self.o == _thread.get_ident():
                    self.c += 1
                    return True
                if not self.l.acquire(blocking, timeout):
                    return False
                self.o = _thread.get_ident(); self.c = 1
                return True

            def release(self):
                if self.o != _thread.get_ident():
                    raise RuntimeError("cannot release un-acquired lock")
                self.c -= 1
                if not self.c:
                    self.o = None; self.l.release()

            def _at_fork_reinit(self):
                self.l = SimLock(); self.o = None; self.c = 0
            __enter__ = acquire

            def __exit__(self, *a):
                self.release()
        threading.Lock = SimLock; threading.RLock = SimRLock
        time.sleep = lambda s: hub.hub_point(me(), 3) if me() >= 0 else None
        if p.get("exits"):
            import atexit
            atexit._clear(); atexit.register(lambda: [plain(k, 3) for k in p["seqs"][0]]) # before the package is imported: runs after what it may register
        sys.path.insert(0, self.a.pkg)
        if p.get("env") and p["env"] & 1:
            self.strange(p["env"])
        import seuif97
        pk = os.path.dirname(os.path.realpath(seuif97.__file__)); pkf = {os.path.realpath(os.path.join(pk, x)) for x in os.listdir(pk)} | {os.path.join(os.path.dirname(seuif97.__file__), x) for x in os.listdir(pk)}
        fns = {}
        for x in NAMES:
            fns[x] = getattr(seuif97, x, None)
            if fns[x] is None:
                return {"missing": x}

        if p.get("env") and not p["env"] & 1:
            self.strange(p["env"])

        def op_call(f, args):
            return f(*args)

        class Num:
            def __init__(self, v, nest):
                self.v = v; self.nest = nest

            def __float__(self):
                if self.nest is not None:
                    plain(self.nest, 1)
                return self.v

        class Bad:
            def __float__(self):
                raise ValueError("no reading")

        def arguments(o, i):
            name, x, y, oid, form = o
            if form == F_INT and math.isfinite(x) and x == int(x):
                x = int(x)
            elif form == F_OBJ:
                nest = None if p.get("nonest") else next((k for k in range(len(ops)) if ops[k][4] == F_OK), None); x = Num(x, nest)
            elif form == F_RAISE:
                y = Bad()
            elif form == F_NONE:
                x = None
            elif form == F_STR:
                y = "1.0"
            a = [x, y] + ([oid] if len(name) == 2 else [])
            if form == F_FEW:
                a.pop()
            elif form == F_MANY:
                a.append(3)
            elif form == F_BIGID and len(name) == 2:
                a[2] = 1 << 40
            elif form == F_FLOATID and len(name) == 2:
                a[2] = 4.0
            elif form in (F_BIGID, F_FLOATID):
                a = [None, None]
            return a

        def deep(f, a, k):
            return op_call(f, a) if k == 0 else deep(f, a, k - 1)

        def plain(k, ctx):
            o = ops[k]; f = fns[o[0]]; res = [me(), ctx, k, "started", 0]; results.append(res); mx = 0
            if p.get("fp"):
                mx = 0x1f80 | (fpr.choice([0, 0x8040, 0x8000, 0x40]) | fpr.choice([0, 0, 0, 0x2000, 0x4000, 0x6000]) | fpr.choice([0, 0x3f, 8, 1]))
            try:
                a = arguments(o, k)
                if o[4] == F_DEEP:
                    old = sys.getrecursionlimit()
                    try:
                        fr = sys._getframe(); dpt = 0
                        while fr:
                            fr = fr.f_back; dpt += 1
                        sys.setrecursionlimit(dpt + 12); v = deep(f, a, 20)
                    finally:
                        sys.setrecursionlimit(old)
                elif mx:
                    hub.hub_setfp(mx); c0 = hub.hub_fp()
                    try:
                        v = op_call(f, a)
                    finally:
                        c1 = hub.hub_fp(); hub.hub_setfp(0x1f80); res.append(mx)
                        if c0 != c1:
                            res[3] = "fp"; res[4] = "%08x, was %08x" % (c1, c0)
                    if c0 != c1:
                        return
                else:
                    v = op_call(f, a)
                if isinstance(v, float):
                    res[3] = "ok"; res[4] = "%016x" % bits(v); hub.hub_result(ctypes.c_uint64(bits(v)))
                else:
                    res[3] = "type"; res[4] = repr(v)[:80]
            except SimAsync:
                res[3] = "cut"
                raise
            except BaseException as e:
                if res[3] == "fp":
                    return
                res[3] = "exc"; res[4] = type(e).__name__ + ": " + str(e)[:120]

        codes = {op_call.__code__, Num.__float__.__code__}
        shapes = {}

        def shape(c):
            x = shapes.get(c)
            if x is None:
                hs = {}
                for e in dis._parse_exception_table(c):
                    for q in range(e.start, e.end, 2):
                        hs[q] = (e.target, e.depth, e.lasti)
                x = shapes[c] = (c.co_code, hs)
            return x

        def fork(t, i):
            """the calls of a sequence in a forked child, where no other thread exists"""
            seq = p["seqs"][i % len(p["seqs"])]; rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 99
                try:
                    hub.hub_solo(t); signal.setitimer(signal.ITIMER_PROF, 8); signal.alarm(60); sys.settrace(None); del results[:]
                    for q in seq:
                        plain(q, 2)
                    os.write(wr, json.dumps(results).encode()); code = 0
                finally:
                    os._exit(code)
            os.close(wr); d = b""
            while True:
                k = os.read(rd, 1 << 16)
                if not k:
                    break
                d += k
            os.close(rd); _, st = os.waitpid(pid, 0)
            results.extend(json.loads(d) if st == 0 else [[t, 2, seq[0], "child", st]])

        def run_thread(t):
            tls.id = t
            marked = []; st = {"ret": False}; prev = {}

            def point(raising):
                a = hub.hub_point(t, 1 if raising else 4)
                if a:
                    k = a & 255
                    if k == 2:
                        # (the interpreter stops tracing this thread when a trace function raises)
                        for f in marked:
                            f.f_trace_opcodes = False
                        del marked[:]
                        raise SimAsync()
                    if k == 3:
                        for q in p["seqs"][(a >> 8) % len(p["seqs"])]:
                            plain(q, 1)
                    if k == 4:
                        gc.collect()
                    if k == 5:
                        fork(t, a >> 8)

            # A point is where the interpreter itself looks for signals, other threads and garbage: on
            # entering a function, on jumping back, and after calling something not written in Python.
            def local(frame, event, arg):
                if event == "opcode":
                    code, hs = shape(frame.f_code); i = frame.f_lasti; k = id(frame); old = prev.get(k); ret = st["ret"]; prev[k] = i; st["ret"] = False
                    if code[i] in BACK:
                        point(True)
                    elif old is not None and code[old] in CALLS and not ret:
                        point(hs.get(i) == hs.get(old))
                elif event == "return":
                    st["ret"] = True; prev.pop(id(frame), None)
                return local

            def tracer(frame, event, arg):
                c = frame.f_code
                if c in codes or c.co_filename in pkf:
                    frame.f_trace_opcodes = True; frame.f_trace_lines = False; marked.append(frame); st["ret"] = False; prev.pop(id(frame), None)
                    point(True)
                    return local
                return None
            hub.hub_enter(t)
            for k in p["threads"][t]:
                a = hub.hub_point(t, 0)
                if a & 255 == 5:
                    fork(t, a >> 8)
                sys.settrace(tracer)
                try:
                    plain(k, 0)
                except SimAsync:
                    pass
                sys.settrace(None)
                for f in marked:
                    f.f_trace_opcodes = False
                del marked[:]; prev.clear()
            hub.hub_leave(t)
        for t in range(n):
            _thread.start_new_thread(run_thread, (t,))
        hub.hub_go()
        if p.get("exits"): # a thread whose local data calls the package when it goes away, then the exit handlers
            exiting.append(1)
            rd = real_lock(); rd.acquire()

            class Bye:
                def __del__(self):
                    try:
                        plain(p["seqs"][1][0], 3)
                    finally:
                        rd.release()

            def last():
                tls.bye = Bye()
                plain(p["seqs"][1][-1], 3)
            _thread.start_new_thread(last, ()); rd.acquire()
            atexit._run_exitfuncs()
        return {"results": results, "hash": "%016x" % hub.hub_hash(), "steps": hub.hub_steps(), "fired": [hub.hub_fired(k) for k in range(8)], "rec": [[hub.hub_rec(i, k) for k in range(4)] for i in range(hub.hub_nrec())]}

    def execute(self, p, stat=True):
        st, d = self.forked(lambda: self.body(p), int(os.environ.get("SIM_CPU", "8")), 120)
        out = None
        if st == 0:
            out = json.loads(d)
        if stat:
            self.st["runs"] += 1
        else:
            self.st["minimiser_runs"] += 1
        v = self.judge(p, st, d, out)
        if out and "hash" in out and stat:
            s = self.st; s["points"] += out["steps"]; s["distinct"].add(hashlib.sha1((out["hash"] + json.dumps([p["ops"][k] for t in p["threads"] for k in t])).encode()).digest()[:8])
            for k, nm in ((1, "thread_switch"), (2, "asynchronous_exception"), (3, "handler_call"), (4, "garbage_collection"), (5, "fork"), (6, "stalled_thread"), (7, "interpreter_lock_released")):
                s["fired"][nm] += out["fired"][k]
            s["fired"]["environment_changed"] += bool(p.get("env"))
            for r in out["results"]:
                s["nested_calls" if r[1] == 1 else "calls"] += 1; s["fired"]["forked_child_calls"] += r[1] == 2; s["fired"]["calls_at_exit"] += r[1] == 3; s["fired"]["floating_point_mode_set"] += bool(p.get("fp"))
                if r[3] == "cut":
                    s["cut_short_calls"] += 1
                if r[3] == "exc":
                    s["failed_calls"] += 1; s["fired"]["failing_call"] += 1
            if len(self.samples) < 3 and len(out["rec"]) > 1:
                self.samples.append({"threads": [[self.show(p["ops"][k]) for k in t] for t in p["threads"]], "decisions": out["rec"][:20], "hash": out["hash"]})
        return v, out

    def show(self, o):
        form = ["", " int", " object", " raising", " None", " str", " few", " many", " bigid", " floatid", " deep"][o[4]]
        return "%s(%r, %r%s)%s" % (o[0], o[1], o[2], "" if o[3] is None else ", %d" % o[3], form)

    def judge(self, p, st, d, out):
        if out is None:
            if os.WIFSIGNALED(st):
                s = os.WTERMSIG(st)
                return ("HANG" if s in (signal.SIGPROF, signal.SIGALRM) else "CRASH", "interpreter ended by signal %d" % s)
            c = os.WEXITSTATUS(st)
            if c == 40:
                return ("BUDGET", "calls did not finish within 400000 steps")
            if c == 41:
                return ("DEADLOCK", "every thread waits for another")
            if c == 99 and d[:1] == b"!":
                t = d.decode(errors="replace")
                if "import seuif97" in t:
                    return ("IMPORT", "importing the package failed: " + t[1:600])
                print("simulator error " + t[:1500], flush=True); os._exit(99)
            return ("EXIT", "interpreter exited with status %d" % c)
        if "missing" in out:
            return ("MISSING", "the package has no function " + out["missing"])
        for r in out["results"]:
            o = p["ops"][r[2]]
            if r[3] == "child":
                s = r[4]
                if os.WIFSIGNALED(s):
                    return ("HANG" if os.WTERMSIG(s) in (signal.SIGPROF, signal.SIGALRM) else "CRASH", "forked child calling %s ended by signal %d" % (self.show(o), os.WTERMSIG(s)))
                c = os.WEXITSTATUS(s)
                return ({40: "BUDGET", 41: "DEADLOCK"}.get(c, "EXIT"), "forked child calling %s %s" % (self.show(o), "does not finish" if c in (40, 41) else "exited with status %d" % c))
            if r[3] == "fp":
                return ("FPENV", "thread %d: %s left the floating-point control settings %s" % (r[0], self.show(o), r[4]))
            if o[4] in BADFORMS or r[3] in ("cut", "started"):
                continue
            ok, want = self.ref(o)
            if not ok:
                continue
            who = "thread %d: %s%s" % (r[0], ("", "nested ", "in forked child: ", "at exit: ")[r[1]], self.show(o))
            if r[3] == "exc":
                if r[1] and "recursion" in r[4]:
                    continue
                return ("EXCEPTION", "%s raised %s; the Rust function returns %r" % (who, r[4], want))
            if r[3] == "type":
                return ("MISMATCH", "%s returned %s; the Rust function returns %r" % (who, r[4], want))
            got = struct.unpack("<d", struct.pack("<Q", int(r[4], 16)))[0]
            if len(r) > 5 and (r[5] & 0x6000 or r[5] & 0x8040 and not all(z == 0 or 1e-30 < abs(z) < 1e30 for z in (o[1], o[2], want, got))):
                continue
            if not close(got, want):
                return ("MISMATCH", "%s returned %r; the Rust function returns %r" % (who, got, want))
        return None

    def minimise(self, p, cls):
        t0 = time.time(); tests = 0

        def fails(q):
            nonlocal tests
            if time.time() - t0 > 40 or tests > 300:
                return False
            tests += 1
            v, _ = self.execute(q, False)
            return v is not None and v[0] == cls
        again = True
        while again:
            again = False
            i = 0
            while i < len(p["script"]):
                q = dict(p, script=p["script"][:i] + p["script"][i + 1:])
                if fails(q):
                    p = q; again = True
                else:
                    i += 1
            for t in range(len(p["threads"])):
                i = len(p["threads"][t]) - 1
                while i >= 0:
                    th = [list(x) for x in p["threads"]]; del th[t][i]
                    q = dict(p, threads=th)
                    if fails(q):
                        p = q; again = True
                    i -= 1
            t = 0
            while len(p["threads"]) > 1 and t < len(p["threads"]):
                if p["threads"][t]:
                    t += 1
                    continue
                sc = [[d[0] - (d[0] > t), d[1], d[2], d[3] - (d[3] > t) if d[2] == 1 else d[3]] for d in p["script"] if d[0] != t and not (d[2] == 1 and d[3] == t)]
                q = dict(p, threads=p["threads"][:t] + p["threads"][t + 1:], script=sc)
                if fails(q):
                    p = q; again = True
                else:
                    t += 1
        return p

    def found(self, p, v, out):
        if out and "rec" in out:
            q = dict(p, script=out["rec"], ps=0, pr=0, pn=0, pg=0, psn=0, pf=0, pk=0)
            w, _ = self.execute(q, False)
            if w and w[0] == v[0]:
                p = self.minimise(q, v[0])
                v, _ = self.execute(p, False); v = v or w
        used = set(k for t in p["threads"] for k in t) | set(k for s in p["seqs"] for k in s)
        f = self.a.viol + ".plan"
        json_ops = [[o[0], struct.pack("<d", o[1]).hex(), struct.pack("<d", o[2]).hex(), o[3], o[4]] for o in p["ops"]]
        with open(f, "w") as h:
            h.write("simpy 1\n%s\n" % json.dumps({"kind": "plan", "build": self.a.build, "hashseed": os.environ.get("PYTHONHASHSEED", "0"), "plan": dict(p, ops=json_ops)}))
            h.write("# violation %s: %s\n" % v)
            for i in sorted(used):
                h.write("# op %d %s\n" % (i, self.show(p["ops"][i])))
        print("FOUND %s %s %s" % (v[0], f, v[1]), flush=True)
        return True

    # ---------------------------------------------------------------- histories and sweeps
    def rawop(self, r, sts):
        name = r.choice(NAMES); s = r.choice(sts); o = self.mk(r, s, name)
        u = r.random()
        if u < .35:
            for i in (1, 2):
                o[i] *= 1 + r.choice([0, 1e-14, 1e-9, 1e-6, 1e-3, .02, .3]) * r.choice([-1, 1])
        elif u < .55:
            k = {"p": lambda: math.exp(r.uniform(-7.4, 4.65)), "t": lambda: r.choice([r.uniform(0, 800), r.uniform(800, 2001), 0.0, 350.0, 800.0, 590.0]), "v": lambda: math.exp(r.uniform(-7, 7)), "h": lambda: r.uniform(-1, 7400), "s": lambda: r.uniform(-.01, 13), "x": lambda: r.choice([0.0, 1.0, r.random(), r.uniform(-.2, 1.2)])}
            o[1], o[2] = k[name[0]](), k[name[1]]()
        elif u < .65:
            o[1 + r.randrange(2)] = r.choice([float("nan"), float("inf"), -float("inf"), 0.0, -1.0, 1e300, -273.15, 5e-324])
        if o[3] is not None and r.random() < .05:
            o[3] = r.choice([-1, 36, 99, 255, 256, 65536, 2147483647, -2147483648])
        return o

    def sweep_child(self, seed, n, upto=None, sts=None):
        """compare n calls of the package, in one interpreter, with the Rust API"""
        r = random.Random(seed)
        sys.path.insert(0, self.a.pkg)
        import seuif97
        last = None
        for i in range(n):
            o = self.rawop(r, sts); fn, oid = fnid(o[0], o[3]); want = self.rust(fn, o[1], o[2], oid)
            f = getattr(seuif97, o[0], None)
            if f is None:
                return {"i": i, "why": "MISSING", "msg": "the package has no function " + o[0]}
            if want is None:
                continue
            try:
                if i % 97 == 96:
                    try:
                        f(o[1], "x")
                    except Exception:
                        pass
                got = f(o[1], o[2]) if o[3] is None else f(o[1], o[2], o[3])
            except BaseException as e:
                return {"i": i, "why": "EXCEPTION", "msg": "call %d, %s raised %r; the Rust function returns %r" % (i + 1, self.show(o), e, want)}
            if not isinstance(got, float) or not close(got, want):
                return {"i": i, "why": "MISMATCH", "msg": "call %d, %s returned %r; the Rust function returns %r" % (i + 1, self.show(o), got, want)}
        return {"i": n, "why": None}

    def sweep(self, b, n):
        seed = self.a.seed * 1000003 + b; sts = self.states(seed) + self.states(seed + 0.5)
        st, d = self.forked(lambda: self.sweep_child(seed, n, None, sts), 60, 300)
        self.st["runs"] += 1
        if st != 0:
            if os.WIFSIGNALED(st) and os.WTERMSIG(st) not in (signal.SIGPROF, signal.SIGALRM):
                why, msg = "CRASH", "interpreter ended by signal %d" % os.WTERMSIG(st)
            elif os.WIFEXITED(st) and d[:1] == b"!" and b"import seuif97" in d:
                why, msg = "IMPORT", d.decode(errors="replace")[1:600]
            elif os.WIFSIGNALED(st):
                return False
            else:
                print("simulator error %r" % d[:1500], flush=True); os._exit(99)
        else:
            o = json.loads(d); self.st["history_calls"] += o["i"]; why = o["why"]; msg = o.get("msg")
            self.st["distinct"].add(hashlib.sha1(("sweep%d" % seed).encode()).digest()[:8])
        if why:
            k = json.loads(d)["i"] + 1 if st == 0 else n
            f = self.a.viol + ".plan"
            open(f, "w").write("simpy 1\n%s\n# violation %s: %s\n" % (json.dumps({"kind": "sweep", "build": self.a.build, "hashseed": os.environ.get("PYTHONHASHSEED", "0"), "seed": seed, "n": k, "states": sts}), why, msg))
            print("FOUND %s %s %s" % (why, f, msg), flush=True)
            return True
        return False

    # ---------------------------------------------------------------- what calls leave in the process
    def snapshot(self, libc):
        import atexit, builtins, decimal, locale, warnings
        s = {"the set of open file descriptors": sorted(os.listdir("/proc/self/fd")), "the threads of the process": len(os.listdir("/proc/self/task")), "the environment": dict(os.environ),
             "the working directory": os.getcwd(), "the locale": locale.setlocale(locale.LC_ALL), "the decimal context": repr(decimal.getcontext()), "the garbage collector": (gc.isenabled(), gc.get_threshold(), len(gc.callbacks), gc.get_debug(), gc.get_freeze_count()),
             "the recursion limit": sys.getrecursionlimit(), "the switch interval": sys.getswitchinterval(), "a hook of the interpreter": [id(x) for x in (sys.excepthook, sys.unraisablehook, sys.displayhook, threading.excepthook, sys.gettrace(), sys.getprofile(), sys.stdout, sys.stderr, sys.stdin, builtins.__import__, builtins.open, builtins.float, builtins.print)],
             "the import path": list(sys.path) + [len(sys.meta_path), len(sys.path_hooks)], "the warning filters": len(warnings.filters), "an exit handler": atexit._ncallbacks(), "the random number generator": hash(random.getstate()), "a builtin": sorted(vars(builtins)), "the time zone": time.tzname,
             "the resource limits": [resource.getrlimit(i) for i in range(16)], "the scheduling priority": os.getpriority(os.PRIO_PROCESS, 0), "the CPU affinity": sorted(os.sched_getaffinity(0)), "the interval timer": signal.getitimer(signal.ITIMER_VIRTUAL)}
        u = os.umask(0); os.umask(u); s["the file mode creation mask"] = u
        for ln in open("/proc/self/status"):
            if ln[:3] == "Sig" and ln[:4] != "SigQ":
                s["the signals (%s)" % ln[:6]] = ln
        s["a signal handler"] = [id(signal.getsignal(i)) if i not in (32, 33) else 0 for i in range(1, 65)]
        e = ctypes.POINTER(ctypes.c_char_p).in_dll(libc, "environ"); k = 0; v = []
        while e[k] is not None:
            v.append(e[k]); k += 1
        s["the C environment"] = v
        libc.fegetround.restype = ctypes.c_int; s["the rounding mode"] = libc.fegetround()
        return s

    def kept(self, libc):
        class M(ctypes.Structure):
            _fields_ = [(x, ctypes.c_size_t) for x in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
        libc.mallinfo2.restype = M
        gc.collect(); m = libc.mallinfo2()
        return m.uordblks + m.hblkhd

    def trace_child(self, seed, n, focus, sts):
        """many calls in one interpreter: the state of the process and the memory it uses before and after"""
        r = random.Random(seed); libc = ctypes.CDLL(None); hub = self.hub
        sys.path.insert(0, self.a.pkg)
        import seuif97, importlib.util, shutil, tempfile, atexit, builtins, decimal, locale, warnings
        fns = {x: getattr(seuif97, x) for x in NAMES}; pool = []
        for k in range(300):
            o = self.rawop(r, sts)
            if k < 200:
                o[0] = focus
                o[1], o[2] = (lambda a: (a[0] * (1 + r.uniform(-.02, .02)), a[1] * (1 + r.uniform(-.02, .02))))(self.args(r.choice(sts), focus))
                o[3] = (r.choice([0, 1, 3, 4, 5, 15, 16]) if r.random() < .7 else r.randrange(37)) if len(focus) == 2 else None
            bad = r.random() < .15; a = [o[1], o[2]] + ([] if o[3] is None else [o[3]])
            if bad:
                q = r.randrange(5)
                a = [None, a[1]] + a[2:] if q == 0 else [a[0], "x"] + a[2:] if q == 1 else a[:1] if q == 2 else a + [1, 2] if q == 3 else [a[0], a[1]] + [1 << 70] * len(a[2:]) + ([()] if len(a) == 2 else [])
            pool.append((fns[o[0]], a, bad, o))
        log = {"i": 0}

        def calls(m):
            for k in range(m):
                f, a, bad, o = pool[int(r.random() * 300)]
                if bad:
                    try:
                        f(*a)
                    except Exception:
                        pass
                else:
                    z = 1 + log["i"] * 1e-10
                    try:
                        if len(a) == 2:
                            f(a[0] * z, a[1])
                        else:
                            f(a[0] * z, a[1], a[2])
                    except Exception:
                        pass
                log["i"] += 1
        t = threading.Thread(target=lambda: None); t.start(); t.join()
        for z in range(300): # (a thread that was joined may not be gone yet)
            if len(os.listdir("/proc/self/task")) == 1:
                break
            time.sleep(.01)
        self.kept(libc); self.snapshot(libc)
        s0 = self.snapshot(libc); k0 = self.kept(libc); left = 0; total = 0; why = None

        def traced(f):
            hub.hub_trace(1)
            try:
                f()
            finally:
                hub.hub_trace(0)
        for step in range(12):
            m = n if step < 2 else n * 2
            if step == 1 and r.random() < .5:
                for q in range(20):
                    t = threading.Thread(target=lambda: traced(lambda: calls(m // 20))); t.start(); t.join()
            else:
                traced(lambda: calls(m))
            total += m; said = hub.hub_said()
            if said:
                why = said.decode(errors="replace")
                break
            for z in range(300): # (a thread that was joined may not be gone yet)
                s1 = self.snapshot(libc)
                if s1["the threads of the process"] == s0["the threads of the process"]:
                    break
                time.sleep(.01)
            for k in s0:
                if s0[k] != s1[k]:
                    why = "after the calls %s is not as before" % k
            left = self.kept(libc) - k0
            if left > 1 << 20:
                why = "the package keeps %d bytes of memory after %d calls" % (left, total)
            if why or step >= 1 and left < 48 << 10:
                break
        return {"i": total, "why": "TRACE" if why else None, "msg": "%s (%d calls, mostly of %s)" % (why, total, focus), "kept": max(0, left)}

    def trace(self, b, n):
        seed = self.a.seed * 1000003 + b; sts = self.states(seed) + self.states(seed + 0.5); focus = NAMES[b * 7 % len(NAMES)]
        st, d = self.forked(lambda: self.trace_child(seed, n, focus, sts), 60, 300)
        self.st["runs"] += 1; self.st["fired"]["state_compared"] += 1
        if st != 0:
            if os.WIFSIGNALED(st) or d[:1] != b"!" or b"import seuif97" in d:
                return False # not a matter of what is left behind
            print("simulator error %s" % d[:1500].decode(errors="replace"), flush=True); os._exit(99)
        o = json.loads(d); self.st["history_calls"] += o["i"]; self.st["max_kept_bytes"] = max(self.st.get("max_kept_bytes", 0), o["kept"])
        self.st["distinct"].add(hashlib.sha1(("trace%d" % seed).encode()).digest()[:8])
        if o["why"]:
            f = self.a.viol + ".plan"
            open(f, "w").write("simpy 1\n%s\n# violation %s: %s\n" % (json.dumps({"kind": "trace", "build": self.a.build, "hashseed": os.environ.get("PYTHONHASHSEED", "0"), "seed": seed, "n": n, "focus": focus, "states": sts}), o["why"], o["msg"]))
            print("FOUND %s %s %s" % (o["why"], f, o["msg"]), flush=True)
            return True
        return False

    def campaign(self):
        a = self.a; t0 = time.time(); trunc = False
        for b in range(a.frm, a.to, a.stride):
            if time.time() - t0 > a.tlimit:
                trunc = True
                break
            self.st["batches"] += 1
            if a.mode in ("sweep", "trace"):
                if (self.sweep if a.mode == "sweep" else self.trace)(b, a.runs):
                    break
                continue
            r = random.Random("%d/%d" % (a.seed, b)); self.refs.clear()
            ops = self.pool(r, b * 37 + a.seed)
            if not any(o[4] not in BADFORMS for o in ops):
                continue
            stop = False
            for k in range(a.runs):
                p = self.plan(r, ops); v, out = self.execute(p)
                if a.digests and out and "hash" in out:
                    print("DIGEST %d.%d %s" % (b, k, out["hash"]), flush=True)
                if v:
                    stop = self.found(p, v, out)
                    break
            if stop:
                break
        s = dict(self.st); s["distinct"] = [x.hex() for x in s["distinct"]]; s["truncated"] = trunc; s["elapsed"] = time.time() - t0; s["samples"] = self.samples
        json.dump(s, open(a.out, "w"))

    def replay(self, f):
        j = json.loads(open(f).read().split("\n", 2)[1])
        if j["kind"] in ("sweep", "trace"):
            st, d = self.forked(lambda: self.sweep_child(j["seed"], j["n"], None, j["states"]) if j["kind"] == "sweep" else self.trace_child(j["seed"], j["n"], j["focus"], j["states"]), 60, 300)
            bad = st != 0 or json.loads(d)["why"]
            print("REPLAY %s %s" % (bad or "none", d[:500].decode(errors="replace"))); return 1 if bad else 0
        p = j["plan"]; p["ops"] = [[o[0], struct.unpack("<d", bytes.fromhex(o[1]))[0], struct.unpack("<d", bytes.fromhex(o[2]))[0], o[3], o[4]] for o in p["ops"]]
        v, out = self.execute(p)
        print("schedule hash", out and out.get("hash")); print("REPLAY %s" % (("%s %s" % v) if v else "none")); return 1 if v else 0


def main():
    ap = argparse.ArgumentParser()
    for x in ("hub", "shim", "pkg", "viol", "out", "build", "replay"):
        ap.add_argument("--" + x, default="")
    for x in ("seed", "frm", "to", "stride", "runs", "digests"):
        ap.add_argument("--" + x, type=int, default=1)
    ap.add_argument("--mode", default="plans"); ap.add_argument("--tlimit", type=float, default=1e9)
    a = ap.parse_args(); sys.dont_write_bytecode = True
    s = Sim(a)
    if a.replay:
        sys.exit(s.replay(a.replay))
    s.campaign()


if __name__ == "__main__":
    main()
