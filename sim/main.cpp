// Campaigns: generate, run, judge, minimise, replay.
#include "gen.h"
#include <chrono>
#include <cmath>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <immintrin.h>

struct Ref { int status = 0; u64 bits = 0; u32 pts = 0, allocs = 0, sysc = 0, insns = 0; std::vector<u32> shpt; int vclass = 0; std::string msg; bool stepped = false; };
static std::unordered_map<Op, Ref, OpKey, OpEq> refs;
static std::string g_prop, g_engine = "instr";
static int g_canary = -1;
static const u64 STREAM_WORK = 800000000ull;
static struct { u64 runs, refs, batches, ops, nested, dtor, exitc, childops, points, shpoints, maxpts, steps, vtime, incomplete, skipped, minruns, streamcalls, churn, badops, valueskip, probed, stateful, directed, abandoned, maxstack, maxkept; u64 fired[F_N], runs_with[F_N], cfg[10]; } S;
static const char *CFGN[10] = {"runs_with_every_or_random_allocations_failing", "runs_with_every_or_random_system_calls_failing", "runs_with_clock_jumps", "runs_with_other_environment", "runs_with_other_random_source", "runs_with_other_cpu_identification", "runs_with_other_cpu_count", "runs_with_other_clock_start", "runs_with_race_detector", "runs_with_shifted_and_soiled_stacks"};
static std::unordered_set<u64> g_hashes;
static const u64 REF_BUDGET = 40000000ull;
static int CPU_S = getenv("SIM_CPU") ? atoi(getenv("SIM_CPU")) : 6, WALL_S = getenv("SIM_CPU") ? 300 : 200;

static u32 STEP_CAP = 30000; // native: instructions counted (and interrupted) at the start of a call; longer calls count as heavy
static Plan single(const Op &o) { Plan p; p.prop = g_prop; p.engine = g_engine; p.ops.push_back(o); p.ops[0].mx = 0x1f80; p.ops[0].cw = 0x37f; ThreadSpec t; t.ops = {0}; p.th.push_back(t); return p; }
static Ref &ref(const Op &o) {
  auto it = refs.find(o); if (it != refs.end()) return it->second;
  if (refs.size() > 20000) refs.clear();
  Ref r; RunOut out; Plan p = single(o); rt_run(p, REF_BUDGET, CPU_S, WALL_S, out); S.refs++;
  r.vclass = out.vclass; r.msg = out.msg;
  if (!out.vclass && shm->nres >= 1) { Res &q = shm->res[0]; r.status = q.status; r.bits = q.bits; r.pts = q.pts; r.allocs = q.allocs; r.sysc = q.sysc; for (u32 i = 0; i < shm->nsh; i++) r.shpt.push_back(shm->shpt[i]); if (q.status == ST_PANIC) { r.vclass = V_PANIC; r.msg = "the call panicked"; } if (q.pts > S.maxpts) S.maxpts = q.pts; }
  return refs[o] = r;
}
static u32 insns(const Op &o) { Ref &r = ref(o); if (!r.stepped && !r.vclass) { r.stepped = true; RunOut out; Plan p = single(o); g_step_count = true; g_step_cap = STEP_CAP; rt_run(p, REF_BUDGET, 60, 600, out); g_step_count = false; r.insns = !out.vclass && shm->nres ? shm->res[0].pts : 0; } return r.insns; }
static Op rust_of(const Op &o) { Op r = o; r.surf = S_RUST; return r; }
static bool isn(u64 b) { return (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull; }
static bool close_(u64 a, u64 b) { if (a == b || (isn(a) && isn(b))) return true; double x = b2d(a), y = b2d(b); return std::fabs(x - y) <= 1e-10 * std::fmax(std::fabs(x), std::fabs(y)); }
static bool tiny_(u64 b) { double a = std::fabs(b2d(b)); return a != 0 && !(a > 1e-30 && a < 1e30); } // flush-to-zero hardware legitimately treats such numbers (or their quotients) as zero
static bool ftz_free(const Op &o, u64 alone) { if (!(o.mx & 0x8040)) return true; if (tiny_(o.x) || tiny_(o.y)) return false; double v = std::fabs(b2d(alone)); return v == 0 || (v > 1e-30 && v < 1e30); }
struct Verdict { int cls = 0; std::string msg; int op = -1; };
static u64 budget(const Plan &p) {
  u64 b = 300000; auto add = [&](int o) { b += (u64)(p.engine == "native" ? ref(p.ops[o]).insns * 4 : ref(p.ops[o]).pts) * 8; };
  for (auto &t : p.th) { for (int o : t.ops) add(o); for (int o : t.tlsd) add(o); for (int o : t.keyd) add(o); }
  for (int o : p.exitOps) add(o);
  for (int k = 0; k < 4; k++) for (auto &s : p.seqs) for (int o : s) add(o);
  return b;
}
static bool own(const Ref &z) { return (g_prop == "C19" && z.vclass == V_STACK) || (g_prop == "C20" && z.vclass == V_TRACE); } // a violation of the property by a single call
static bool usable(const Op &o) { Ref &r = ref(o); if (r.vclass) return false; if (o.surf == S_C) return !ref(rust_of(o)).vclass; return true; }
static Verdict judge_(const Plan &p, const RunOut &out);
static Verdict judge(const Plan &p, const RunOut &out) { Verdict v = judge_(p, out); if (g_prop == "C19" && v.cls != V_STACK) return Verdict(); if (g_prop == "C20" && v.cls != V_TRACE && !(v.cls == V_CRASH && shm->fired[F_UNLOAD])) return Verdict(); return v; }
static Verdict judge_(const Plan &p, const RunOut &out) {
  Verdict v; char b[900];
  for (u32 i = 0; i < shm->nres; i++) {
    Res &r = shm->res[i]; if (r.op < 0 || r.op >= (int)p.ops.size()) continue; const Op &o = p.ops[r.op];
    static const char *CX[] = {"call", "nested call", "call in forked child", "call in thread-exit destructor (library state destroyed last)", "call in thread-exit destructor", "call in process-exit handler"};
    if (r.status == ST_ABANDONED) { S.abandoned++; continue; }
    if (r.status == ST_STARTED) { if (!out.vclass) S.incomplete++; continue; }
    Ref &q = ref(o);
    if (r.status == ST_PANIC) { v.cls = V_PANIC; v.op = r.op; snprintf(b, sizeof b, "thread %d: %s %s panicked; alone it returns %.17g", r.th, CX[r.ctx], rt_desc(o), b2d(q.bits)); v.msg = b; return v; }
    bool rn = (o.mx & 0x6000) == 0;
    if (g_prop == "C08" && ((r.mx & 0xffc0) != (o.mx & 0xffc0) || r.cw != o.cw)) { v.cls = V_FPENV; v.op = r.op; snprintf(b, sizeof b, "thread %d: %s %s left mxcsr %04x (was %04x), x87 control word %04x (was %04x)", r.th, CX[r.ctx], rt_desc(o), r.mx, o.mx, r.cw, o.cw); v.msg = b; return v; }
    if (!rn || !ftz_free(o, q.bits) || ((o.mx & 0x8040) && o.surf == S_RUSTREG && ref(rust_of(o)).bits != q.bits)) { S.valueskip++; continue; }
    if (r.bits != q.bits && !(isn(r.bits) && isn(q.bits))) { v.cls = V_MISMATCH; v.op = r.op; snprintf(b, sizeof b, "thread %d: %s %s returned %.17g (%016llx); alone it returns %.17g (%016llx)", r.th, CX[r.ctx], rt_desc(o), b2d(r.bits), (unsigned long long)r.bits, b2d(q.bits), (unsigned long long)q.bits); v.msg = b; return v; }
    if (o.surf == S_C && g_prop == "C06") { Ref &w = ref(rust_of(o)); if (!w.vclass && !close_(w.bits, r.bits)) { v.cls = V_SURFACE; v.op = r.op; snprintf(b, sizeof b, "%s returned %.17g, the Rust function returns %.17g", rt_desc(o), b2d(r.bits), b2d(w.bits)); v.msg = b; return v; } }
  }
  if (out.vclass) { v.cls = out.vclass; std::string w = "calls in progress:"; for (u32 i = 0; i < shm->nres; i++) if (shm->res[i].status == ST_STARTED) { v.op = shm->res[i].op; w += std::string(" t") + std::to_string(shm->res[i].th) + " " + rt_desc(p.ops[shm->res[i].op]) + ";"; } v.msg = out.msg + "; " + w; }
  return v;
}
static Verdict execute(const Plan &p, bool stat = true) {
  for (auto &o : p.ops) { ref(o); if (o.surf == S_C) ref(rust_of(o)); }
  if (p.engine == "native") for (auto &t : p.th) for (int o : t.ops) insns(p.ops[o]);
  RunOut out; rt_run(p, budget(p), CPU_S, WALL_S, out);
  if (stat) { const Conf &c = p.conf; bool z[10] = {c.stk != 0, c.alloc || p.pol.palloc, c.sys || p.pol.psys, p.pol.pclock > 0, c.env > 0, c.rnd > 0, c.cpu > 0, c.ncpu > 0, c.vt0 != 1700000000, p.races && p.th.size() > 1}; for (int i = 0; i < 10; i++) S.cfg[i] += z[(i + 1) % 10]; S.runs++; for (int i = 0; i < F_N; i++) { S.fired[i] += shm->fired[i]; S.runs_with[i] += shm->fired[i] > 0; } S.points += shm->points; S.shpoints += shm->shpoints; S.vtime += shm->vtime_ns;
    for (u32 i = 0; i < shm->nres; i++) { u8 c = shm->res[i].ctx; (c == 0 ? S.ops : c == 1 ? S.nested : c == 2 ? S.childops : c == 5 ? S.exitc : S.dtor)++; } }
  else S.minruns++;
  if (out.vclass == V_LOST) return Verdict();
  return judge(p, out);
}
// ------------------------------------------------------------------ streams (long histories at native speed)
struct Seg { int op; int rep; }; // op -1: the following calls come from a new thread
struct StreamShm { volatile u64 idx; volatile int status; volatile u64 bits; volatile int op; volatile u64 kept; char msg[300]; };
static StreamShm *ss; static u32 rand_mx(Rng &r); static u32 rand_cw(Rng &r);
struct StreamPlan { std::vector<Op> ops; std::vector<Seg> seg; bool lastonly = false; };
static void stream_body(const StreamPlan &sp, const std::vector<u64> &exp, size_t &i) {
  for (; i < sp.seg.size() && sp.seg[i].op >= 0; i++) { const Op &o = sp.ops[sp.seg[i].op]; bool chk = !sp.lastonly || i + 1 == sp.seg.size();
    for (int k = 0; k < sp.seg[i].rep; k++) { double v = 0; ss->op = sp.seg[i].op; int st = rt_call_raw(o, &v); u64 b = d2b(v);
      if (st || (chk && b != exp[sp.seg[i].op] && !(isn(b) && isn(exp[sp.seg[i].op])))) { ss->status = st ? 2 : 1; ss->bits = b; _exit(5); } ss->idx = ss->idx + 1; } }
}
static Verdict run_stream(const StreamPlan &sp, bool stat = true) {
  std::vector<u64> exp(sp.ops.size()); if (!sp.lastonly) for (size_t k = 0; k < sp.ops.size(); k++) exp[k] = ref(sp.ops[k]).bits; else exp[sp.seg.back().op] = ref(sp.ops[sp.seg.back().op]).bits;
  ss->idx = 0; ss->status = 0; ss->op = -1; ss->kept = 0; ss->msg[0] = 0; int st = 0;
  rt_forked([&] { rt_trace_begin(); size_t i = 0; while (i < sp.seg.size()) { if (sp.seg[i].op < 0) { i++; struct A { const StreamPlan *s; std::vector<u64> *e; size_t *i; } a{&sp, &exp, &i}; pthread_t t; if (pthread_create(&t, nullptr, [](void *q) -> void * { A *a = (A *)q; stream_body(*a->s, *a->e, *a->i); return nullptr; }, &a)) _exit(99); pthread_join(t, nullptr); } else stream_body(sp, exp, i); } ss->kept = rt_kept(); if (rt_trace_end(ss->msg, sizeof ss->msg)) { ss->status = 3; _exit(7); } }, 60, 600, &st); if (ss->kept > S.maxkept) S.maxkept = ss->kept;
  if (stat) { S.streamcalls += ss->idx; S.runs++; for (auto &g : sp.seg) if (g.op < 0) S.churn++; }
  Verdict v; char b[600];
  if (WIFEXITED(st) && WEXITSTATUS(st) == 99) _exit(99);
  int op = ss->op; if (op < 0 || op >= (int)sp.ops.size()) return v; const Op &o = sp.ops[op];
  if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { v.cls = V_TRACE; snprintf(b, sizeof b, "after %llu calls, the last of them %s: %s", (unsigned long long)ss->idx, rt_desc(o), ss->msg); }
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGSEGV && g_small) { v.cls = V_STACK; snprintf(b, sizeof b, "call number %llu of the history, %s: segmentation fault on a stack of 16 KiB", (unsigned long long)ss->idx + 1, rt_desc(o)); }
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 5) { v.cls = ss->status == 2 ? V_PANIC : V_MISMATCH; snprintf(b, sizeof b, "call number %llu of the history, %s, %s %.17g; alone it returns %.17g", (unsigned long long)ss->idx + 1, rt_desc(o), ss->status == 2 ? "panicked" : "returned", b2d(ss->bits), b2d(exp[op])); }
  else if (WIFSIGNALED(st)) { int s = WTERMSIG(st); if (s == SIGPROF || s == SIGALRM) { return v; } v.cls = V_CRASH; snprintf(b, sizeof b, "call number %llu of the history, %s, ended the process by signal %d", (unsigned long long)ss->idx + 1, rt_desc(o), s); }
  else if (!WIFEXITED(st) || WEXITSTATUS(st)) { v.cls = V_EXIT; snprintf(b, sizeof b, "call number %llu of the history, %s, exited the process", (unsigned long long)ss->idx + 1, rt_desc(o)); }
  if (v.cls) { v.msg = b; v.op = op; }
  return v;
}
static void stream_save(const StreamPlan &sp, const std::string &f, const std::string &note) {
  FILE *o = fopen(f.c_str(), "w"); fprintf(o, "simstream 1\nprop %s\n# %s\n%s", g_prop.c_str(), note.c_str(), sp.lastonly ? "lastonly\n" : "");
  for (size_t i = 0; i < sp.ops.size(); i++) { auto &a = sp.ops[i]; fprintf(o, "op %zu %d %d %016llx %016llx %d %d # %s\n", i, a.surf, a.fn, (unsigned long long)a.x, (unsigned long long)a.y, a.o, a.reg, rt_desc(a)); }
  for (auto &s : sp.seg) fprintf(o, "call %d x %d\n", s.op, s.rep);
  fprintf(o, "end\n"); fclose(o);
}
static bool stream_load(StreamPlan &sp, const std::string &f) {
  FILE *o = fopen(f.c_str(), "r"); if (!o) return false; char ln[1024]; sp = StreamPlan(); bool ok = false;
  while (fgets(ln, sizeof ln, o)) { int i, a, b; Op p; unsigned long long x, y; char s[64]; if (sscanf(ln, "op %d %d %d %llx %llx %d %d", &i, &p.surf, &p.fn, &x, &y, &p.o, &p.reg) == 7) { p.x = x; p.y = y; sp.ops.push_back(p); } else if (sscanf(ln, "call %d x %d", &a, &b) == 2) sp.seg.push_back({a, b}); else if (sscanf(ln, "prop %60s", s) == 1) g_prop = s; else if (!strncmp(ln, "lastonly", 8)) sp.lastonly = true; else if (!strncmp(ln, "end", 3)) ok = true; }
  fclose(o); return ok;
}
static StreamPlan stream_min(StreamPlan sp, int cls) {
  int tests = 0; auto t0 = std::chrono::steady_clock::now();
  auto fails = [&](const StreamPlan &q) { if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 60) return false; tests++; return run_stream(q, false).cls == cls; };
  if (!sp.lastonly) { run_stream(sp, false); u64 n = ss->idx + 1, k = 0; std::vector<Seg> t; for (auto &g : sp.seg) { if (g.op < 0) { t.push_back(g); continue; } if (k + g.rep >= n) { t.push_back({g.op, (int)(n - k)}); break; } t.push_back(g); k += g.rep; } StreamPlan q = sp; q.seg = t; if (fails(q)) sp = q; }
  for (size_t ch = sp.seg.size() / 2; ch >= 1 && tests < 600; ch = ch > 1 ? ch / 2 : 0) { for (size_t i = 0; i + (sp.lastonly ? 1 : 0) < sp.seg.size() && tests < 600;) { size_t end = std::min(sp.seg.size() - (sp.lastonly ? 1 : 0), i + ch); StreamPlan q = sp; q.seg.erase(q.seg.begin() + i, q.seg.begin() + end); if (q.seg.size() && fails(q)) sp = q; else i += ch; } }
  for (size_t i = 0; i < sp.seg.size() && tests < 700; i++) { int lo = 1; while (sp.seg[i].rep > 1 && sp.seg[i].op >= 0) { StreamPlan q = sp; int nr = std::max(lo, sp.seg[i].rep / 2); if (nr == sp.seg[i].rep) break; q.seg[i].rep = nr; if (fails(q)) sp = q; else { q.seg[i].rep = sp.seg[i].rep - std::max(1, sp.seg[i].rep / 16); if (fails(q)) sp = q; else break; } } }
  return sp;
}
// ------------------------------------------------------------------ plan generators
static u64 total_pts(const Plan &p) { u64 s = 0; for (auto &t : p.th) for (int o : t.ops) s += ref(p.ops[o]).pts; return s ? s : 1; }
static u32 target_point(Rng &r, const Op &o) { Ref &q = ref(o); if (g_engine == "native") { u32 n = insns(o); return n ? 1 + r.below(n) : 1; } if (q.shpt.size() && r.chance(3, 4)) return q.shpt[r.below((u32)q.shpt.size())] + (r.chance(1, 4) ? 1 : 0); return q.pts ? 1 + r.below(q.pts) : 0; }
static void sched(Rng &r, Plan &p) { // a random scheduling policy for the run
  if (p.engine == "native") { // explicit preemptions at instructions
    int n = 1 + (int)r.below(4); for (int i = 0; i < n; i++) { int t = (int)r.below((u32)p.th.size()); if (p.th[t].ops.empty()) continue; u32 k = r.below((u32)p.th[t].ops.size()); p.dec.push_back({(u16)t, A_SW, k + 1, target_point(r, p.ops[p.th[t].ops[k]]), (int)r.below((u32)p.th.size())}); } return; }
  if (p.th.size() < 2) { p.pol.type = P_NONE; return; }
  u64 tot = total_pts(p);
  switch (r.below(8)) {
  case 0: case 1: case 2: case 3: { p.pol.type = P_RANDOM; static const u32 E[] = {1, 2, 4, 8, 20, 60}; u64 pf = E[r.below(6)] * 65536ull / tot; p.pol.pf = (u32)std::min<u64>(pf, 30000); static const u32 P[] = {655, 3276, 6553, 16384, 32768, 50000, 65535}; p.pol.ps = P[r.below(7)]; break; }
  case 4: { p.pol.type = P_LOCKSTEP; static const u32 K[] = {0, 1, 2, 3, 7, 50, 1000}; p.pol.k = K[r.below(7)]; if (p.pol.k && tot / p.pol.k > 4000) p.pol.k = (u32)(tot / 4000) + 1; break; }
  default: p.pol.type = P_PCT; p.pol.k = 1 + r.below(6); p.pol.pf = (u32)std::min<u64>(tot, 4000000000u); break;
  }
}
static std::vector<int> pickops(Rng &r, const Pool &po, int lo, int hi) { std::vector<int> v; int n = lo + (int)r.below(hi - lo + 1); for (int i = 0; i < n; i++) v.push_back((int)r.below((u32)po.ops.size())); return v; }
static u32 rand_mx(Rng &r) { u32 m = 0x1f80; if (r.chance(1, 2)) m |= 0x8000; if (r.chance(1, 2)) m |= 0x40; if (r.chance(1, 4)) m |= (1 + r.below(3)) << 13; if (r.chance(1, 2)) m |= r.below(64); return m; }
static u32 rand_cw(Rng &r) { static const u32 PC[] = {0, 2, 3}; return 0x7f | PC[r.below(3)] << 8 | (r.chance(1, 3) ? r.below(4) << 10 : 0); }
static Plan make_plan(Rng &r, const Pool &po, const std::string &prop) {
  Plan p; p.prop = prop; p.engine = g_engine; p.seed = r.next(); p.ops = po.ops; p.conf = Conf(); if (r.chance(1, 2)) p.conf.stk = 1 + (int)r.below(1 << 30);
  auto addT = [&](int lo, int hi) { ThreadSpec t; t.ops = pickops(r, po, lo, hi); p.th.push_back(t); };
  auto interrupts = [&](int n) { for (int i = 0; i < n; i++) { p.seqs.push_back(pickops(r, po, 1, 3)); int t = (int)r.below((u32)p.th.size()); if (p.th[t].ops.empty()) continue; u32 k = r.below((u32)p.th[t].ops.size()); u32 fr = k + 1; if (i && r.chance(1, 2)) { // interrupt the interruption
          const Dec &d = p.dec.back(); if (d.act == A_INT) { t = d.th; fr = d.frame + 1; u32 pt = target_point(r, p.ops[p.seqs[d.arg][0]]); p.dec.push_back({(u16)t, A_INT, fr, pt, (int)p.seqs.size() - 1}); continue; } }
        p.dec.push_back({(u16)t, A_INT, fr, target_point(r, p.ops[p.th[t].ops[k]]), (int)p.seqs.size() - 1}); } };
  auto deep = [&](int n) { int t = 0; if (p.th[t].ops.empty()) return; u32 k = r.below((u32)p.th[t].ops.size()), fr = k + 1; int prev = p.th[t].ops[k]; bool one = r.chance(1, 2); u32 same = r.chance(1, 3) ? target_point(r, p.ops[prev]) : 0;
    for (int i = 0; i < n; i++) { int o = one ? prev : (int)r.below((u32)p.ops.size()); p.seqs.push_back({o}); p.dec.push_back({(u16)t, A_INT, fr, same && o == prev ? same : target_point(r, p.ops[prev]), (int)p.seqs.size() - 1}); fr++; prev = o; } };
  auto crashes = [&](int n) { for (int i = 0; i < n; i++) { int t = (int)r.below((u32)p.th.size()); if (p.th[t].ops.empty()) continue; u32 k = r.below((u32)p.th[t].ops.size()); p.dec.push_back({(u16)t, A_CRASH, k + 1, target_point(r, p.ops[p.th[t].ops[k]]), 0}); } };
  bool nat = g_engine == "native";
  auto crowd = [&]() { int n = r.chance(1, 10) ? 5 + (int)r.below(r.chance(1, 4) ? 35 : 8) : 2 + (int)r.below(3); for (int i = 0; i < n; i++) addT(1, n > 8 ? 2 : 3);
    if (r.chance(1, 12)) { static const int B[] = {8, 16, 32, 64, 128, 256}; int t = 1 + (int)r.below(n - 1); p.th[t].churn = std::max(1, B[r.below(6)] - 1 - (int)r.below(t + 1)); p.th[t].churnop = p.th[0].ops[0]; { u64 c = ref(po.ops[p.th[t].churnop]).pts + 1; if (p.th[t].churn * c > 3000000) p.th[t].churn = (int)(3000000 / c); } if (r.chance(3, 4)) { p.th[t].ops = p.th[0].ops; for (auto &o : p.th[t].ops) if (r.chance(1, 2)) o = (int)r.below((u32)po.ops.size()); } } };
  auto marathon = [&]() { // one caller makes many calls while the others are somewhere inside theirs
    static const int B[] = {16, 32, 64, 128, 256, 512}; int t = (int)r.below((u32)p.th.size()), o = (int)r.below((u32)po.ops.size()), o2 = r.chance(1, 2) ? o : (int)r.below((u32)po.ops.size()); u64 c = ref(po.ops[o]).pts + ref(po.ops[o2]).pts + 2; int n = B[r.below(6)] + (r.chance(1, 2) ? 0 : (int)r.below(8) - 4); if (n * c / 2 > 400000) n = (int)(800000 / c); p.th[t].ops.clear(); for (int i = 0; i < n; i++) p.th[t].ops.push_back(r.chance(1, 2) ? o : o2); if (p.th[t].ops.empty()) p.th[t].ops.push_back(o); };
  if (prop == "C01") { crowd(); if (!nat && r.chance(1, 12)) marathon(); sched(r, p); p.races = true; }
  else if (prop == "C02") { if (r.chance(1, 2)) addT(2, 30); else { int n = 2 + (int)r.below(5); for (int i = 0; i < n; i++) { addT(1, 8); p.th[i].after = i - 1; } } }
  else if (prop == "C03") { int n = 1 + (int)r.below(2); for (int i = 0; i < n; i++) addT(1, 3); if (r.chance(1, 6)) deep(3 + (int)r.below(14)); else interrupts(1 + (int)r.below(4)); if (!nat) sched(r, p); }
  else if (prop == "C04" && r.chance(1, nat ? 40 : 8)) { // many stopped callers, few left
    int n = 5 + (int)r.below(nat ? 6 : 30); for (int i = 0; i < n; i++) addT(1, 2); bool one = r.chance(1, 2); u32 pt = target_point(r, p.ops[p.th[0].ops[0]]); int left = 1 + (int)r.below(2);
    for (int t = 0; t + left < n; t++) { if (one) p.th[t].ops[0] = p.th[0].ops[0]; p.dec.push_back({(u16)t, A_CRASH, 1, one && r.chance(3, 4) ? pt : target_point(r, p.ops[p.th[t].ops[0]]), 0}); }
    if (one) for (int t = n - left; t < n; t++) p.th[t].ops[0] = p.th[0].ops[0];
    if (!nat) sched(r, p); }
  else if (prop == "C04") { int n = 2 + (int)r.below(3); for (int i = 0; i < n; i++) addT(1, 4); crashes(1 + (int)r.below(n)); if (!nat) sched(r, p); else if (r.chance(1, 2)) sched(r, p); }
  else if (prop == "C05") { addT(1, 4); if (r.chance(1, 4)) addT(1, 2); if (!nat) sched(r, p); Conf &c = p.conf; if (r.chance(1, 2)) c.env = (int)r.below(7); if (r.chance(1, 2)) c.rnd = 1 + (int)r.below(1000); if (r.chance(1, 2)) c.cpu = (int)r.below(4); if (r.chance(1, 2)) c.ncpu = (int)r.below(8); if (r.chance(1, 2)) c.vt0 = (i64[]){0, 1, 1700000000, 4102444800, 253402300800ll, 2147483647, 946684799}[r.below(7)];
    switch (r.below(5)) { case 0: c.alloc = 1; break; case 1: p.pol.palloc = (u32[]){3000, 16000, 40000}[r.below(3)]; break; default: break; }
    switch (r.below(5)) { case 0: c.sys = 1 + (int)r.below(10); break; case 1: p.pol.psys = (u32[]){3000, 16000, 40000}[r.below(3)]; break; default: break; }
    if (r.chance(1, 2)) p.pol.pclock = (u32[]){6000, 30000, 65535}[r.below(3)];
    // single failures at occurrences the reference run showed
    for (size_t t = 0; t < p.th.size(); t++) for (size_t k = 0; k < p.th[t].ops.size(); k++) { Ref &q = ref(p.ops[p.th[t].ops[k]]); if (q.allocs && r.chance(1, 2)) p.dec.push_back({(u16)t, A_ALLOC, (u32)k + 1, 1 + r.below(q.allocs), 1}); if (q.sysc && r.chance(1, 2)) p.dec.push_back({(u16)t, A_SYS, (u32)k + 1, 1 + r.below(q.sysc), (int)(i32[]){4, 12, 5, 11, 38, 1, 24, 2, 22, 28}[r.below(10)]}); } }
  else if (prop == "C06") { switch (r.below(4)) { case 0: { crowd(); sched(r, p); p.races = true; break; } case 1: addT(3, 14); break; case 2: addT(1, 3); interrupts(1 + (int)r.below(2)); break; default: { int n = 2 + (int)r.below(2); for (int i = 0; i < n; i++) addT(1, 3); crashes(1); if (!nat) sched(r, p); } } }
  else if (prop == "C08") { // every op in several host modes
    std::vector<Op> base = p.ops; p.ops.clear(); for (auto &o : base) for (int k = 0; k < 3; k++) { Op a = o; if (k) { a.mx = rand_mx(r); a.cw = rand_cw(r); } p.ops.push_back(a); }
    auto pk = [&](int lo, int hi) { std::vector<int> v; int n = lo + (int)r.below(hi - lo + 1); for (int i = 0; i < n; i++) v.push_back((int)r.below((u32)p.ops.size())); return v; };
    int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) { ThreadSpec t; t.ops = pk(1, 5); p.th.push_back(t); }
    if (r.chance(1, 2)) { int m = 1 + (int)r.below(2); for (int i = 0; i < m; i++) { p.seqs.push_back(pk(1, 2)); int t = (int)r.below((u32)p.th.size()); u32 k = r.below((u32)p.th[t].ops.size()); p.dec.push_back({(u16)t, A_INT, k + 1, target_point(r, p.ops[p.th[t].ops[k]]), (int)p.seqs.size() - 1}); } }
    if (!nat) sched(r, p); }
  else if (prop == "C09") { int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) addT(2, 8); sched(r, p); if (r.chance(1, 4)) interrupts(1); }
  else if (prop == "C10") { int n = 1 + (int)r.below(4); for (int i = 0; i < n; i++) { addT(r.chance(1, 5) ? 0 : 1, 3); ThreadSpec &t = p.th.back(); if (r.chance(1, 2)) t.tlsd = pickops(r, po, 1, 2); if (r.chance(1, 3)) t.keyd = pickops(r, po, 1, 2); if (i && r.chance(1, 3)) t.after = (int)r.below(i); }
    int f = (int)r.below(3); for (int i = 0; i < f; i++) { p.seqs.push_back(pickops(r, po, 1, 3)); int t = (int)r.below((u32)p.th.size()); if (p.th[t].ops.empty()) continue; u32 k = r.below((u32)p.th[t].ops.size()); p.dec.push_back({(u16)t, A_FORK, k + 1, r.chance(1, 2) ? 0 : target_point(r, p.ops[p.th[t].ops[k]]), (int)p.seqs.size() - 1}); }
    if (r.chance(1, 2)) { p.exitOps = pickops(r, po, 1, 3); if (r.chance(1, 3)) p.th[r.below((u32)p.th.size())].exits = 1; }
    if (!nat) sched(r, p); }
  else if (prop == "C19") { int k = (int)r.below(4); if (k < 2) addT(1, 12); else { int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) addT(1, 3); if (!nat) sched(r, p); } if (k == 1) { if (r.chance(1, 6)) deep(3 + (int)r.below(14)); else interrupts(1 + (int)r.below(3)); } }
  else if (prop == "C20") { int k = (int)r.below(4); if (k == 0) addT(2, 30); else { int n = 1 + (int)r.below(4); bool seq = k == 1; for (int i = 0; i < n; i++) { addT(1, 5); if (seq) p.th[i].after = i - 1; } if (!nat && !seq) sched(r, p); if (!seq && r.chance(1, 2)) p.conf.unl = 1; } if (!nat && r.chance(1, 4) && p.th.size() > 1) { int t = 1 + (int)r.below((u32)p.th.size() - 1); p.th[t].churn = 1 + (int)r.below(20); p.th[t].churnop = p.th[0].ops[0]; u64 c = ref(po.ops[p.th[t].churnop]).pts + 1; if (p.th[t].churn * c > 5000000) p.th[t].churn = 0; } }
  else if (prop == "C21") {
    if (r.chance(1, 6)) { // the same call abandoned again and again
      addT(1, 1); int o = p.th[0].ops[0], o2 = r.chance(1, 2) ? o : (int)r.below((u32)po.ops.size()); u64 c = nat ? insns(po.ops[o]) * 40ull + 1 : ref(po.ops[o]).pts + 1; static const int B[] = {3, 8, 16, 32, 64, 128, 256, 300}; int n = B[r.below(8)] + (int)r.below(3); if (n * c > 500000) n = 1 + (int)(500000 / c); u32 pt = target_point(r, po.ops[o]); bool same = r.chance(1, 2); p.th[0].ops.clear();
      for (int i = 0; i < n; i++) { p.th[0].ops.push_back(o); p.dec.push_back({0, A_ABANDON, (u32)i + 1, same ? pt : target_point(r, po.ops[o]), 0}); }
      for (int i = 0; i < 3; i++) p.th[0].ops.push_back(i ? (int)r.below((u32)po.ops.size()) : o2); if (r.chance(1, 3)) { addT(1, 3); if (r.chance(1, 2)) p.th[1].after = 0; else if (!nat) sched(r, p); } }
    else { int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) addT(2, 6); if (r.chance(1, 3)) interrupts(1 + (int)r.below(3)); size_t ni = p.dec.size();
      if (ni && r.chance(1, 2)) { for (size_t i = 0; i < ni; i++) if (r.chance(1, 2)) { const Dec &d = p.dec[i]; p.dec.push_back({d.th, A_ABANDON, d.frame + 1, target_point(r, p.ops[p.seqs[d.arg][0]]), (int)r.below(3)}); } }
      int m = 1 + (int)r.below(4); for (int i = 0; i < m; i++) { int t = (int)r.below((u32)p.th.size()); u32 k = r.below((u32)p.th[t].ops.size()); p.dec.push_back({(u16)t, A_ABANDON, k + 1, target_point(r, p.ops[p.th[t].ops[k]]), 0}); if (r.chance(1, 2) && k + 1 < p.th[t].ops.size()) p.th[t].ops[k + 1] = p.th[t].ops[k]; }
      if (!nat) sched(r, p); } }
  else { addT(1, 4); }
  return p;
}
// ------------------------------------------------------------------ minimisation
static Plan freeze(const Plan &p) { Plan q = p; q.dec.assign(shm->dec, shm->dec + shm->ndec); q.pol = Policy(); return q; }
static Plan minimise(Plan p, int cls, bool canary) {
  int limit = cls == V_HANG ? 12 : canary ? 60 : 500, tests = 0; auto t0 = std::chrono::steady_clock::now();
  auto fails = [&](const Plan &q) { if (tests >= limit || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 90) return false; tests++; return execute(q, false).cls == cls; };
  bool again = true;
  for (int pass = 0; again && pass < 5; pass++) {
    again = false;
    for (size_t i = 0; i < p.th.size() && p.th.size() > 1;) { Plan q = p; q.th.erase(q.th.begin() + i); std::vector<Dec> d; for (auto x : q.dec) { if (x.th == i) continue; if (x.th != 0xffff && x.th > i) x.th--; if (x.act == A_SW) { if (x.arg == (int)i) continue; if (x.arg > (int)i) x.arg--; } d.push_back(x); } q.dec = d; for (auto &t : q.th) { if (t.after == (int)i) t.after = -1; else if (t.after > (int)i) t.after--; } if (fails(q)) { p = q; again = true; } else i++; }
    for (size_t ch = std::max<size_t>(1, p.dec.size() / 2); p.dec.size(); ch /= 2) { for (size_t i = 0; i < p.dec.size();) { Plan q = p; q.dec.erase(q.dec.begin() + i, q.dec.begin() + std::min(q.dec.size(), i + ch)); if (fails(q)) { p = q; again = true; } else i += ch; } if (ch == 1) break; }
    for (size_t t = 0; t < p.th.size(); t++) {
      for (size_t i = 0; i < p.th[t].ops.size();) { Plan q = p; q.th[t].ops.erase(q.th[t].ops.begin() + i); std::vector<Dec> d; for (auto x : q.dec) { if (x.th == t && (x.frame & 0xfff00000u) == 0) { if (x.frame == i + 1) continue; if (x.frame > i + 1) x.frame--; } d.push_back(x); } q.dec = d; if (fails(q)) { p = q; again = true; } else i++; }
      for (auto f : {&ThreadSpec::tlsd, &ThreadSpec::keyd}) for (size_t i = 0; i < (p.th[t].*f).size();) { Plan q = p; (q.th[t].*f).erase((q.th[t].*f).begin() + i); if (fails(q)) { p = q; again = true; } else i++; }
      if (p.th[t].churn) { Plan q = p; q.th[t].churn = 0; if (fails(q)) p = q; }
      if (p.th[t].after >= 0) { Plan q = p; q.th[t].after = -1; if (fails(q)) p = q; }
    }
    for (size_t t = 0; t < p.seqs.size(); t++) for (size_t i = 0; i < p.seqs[t].size();) { Plan q = p; q.seqs[t].erase(q.seqs[t].begin() + i); if (fails(q)) { p = q; again = true; } else i++; }
    for (size_t i = 0; i < p.exitOps.size();) { Plan q = p; q.exitOps.erase(q.exitOps.begin() + i); if (fails(q)) { p = q; again = true; } else i++; }
    Conf z; for (int k = 0; k < 9; k++) { Plan q = p; switch (k) { case 8: q.conf.unl = 0; break; case 7: q.conf.stk = 0; break; case 0: q.conf.vt0 = z.vt0; break; case 1: q.conf.env = 0; break; case 2: q.conf.rnd = 0; break; case 3: q.conf.cpu = 0; break; case 4: q.conf.ncpu = 0; break; case 5: q.conf.sys = 0; break; default: q.conf.alloc = 0; } if (memcmp(&q.conf, &p.conf, sizeof z) && fails(q)) { p = q; again = true; } }
    if (p.races && cls != V_RACE) { Plan q = p; q.races = false; if (fails(q)) p = q; }
  }
  // drop operations nobody uses
  std::vector<int> map(p.ops.size(), -1); std::vector<Op> ops; auto use = [&](std::vector<int> &v) { for (int &o : v) { if (map[o] < 0) { map[o] = (int)ops.size(); ops.push_back(p.ops[o]); } o = map[o]; } };
  Plan q = p; for (auto &t : q.th) { use(t.ops); if (t.churn) { std::vector<int> z{t.churnop}; use(z); t.churnop = z[0]; } use(t.tlsd); use(t.keyd); } for (auto &s : q.seqs) use(s); use(q.exitOps); q.ops = ops;
  if (execute(q, false).cls == cls) p = q;
  return p;
}
static std::string g_viol; static int g_found = 0; static bool g_nomin = false;
static void found(const Plan &p0, const Verdict &v0) {
  Plan p = freeze(p0); Verdict v = v0; bool froze = execute(p, false).cls == v0.cls;
  if (!froze) p = p0;
  else if (!g_nomin) p = minimise(p, v0.cls, g_canary >= 0);
  Verdict w = execute(p, false); if (w.cls) v = w;
  std::string f = g_viol + ".plan"; char b[100]; snprintf(b, 100, "%s", VN[v.cls]);
  plan_save(p, f, std::string("violation ") + b + ": " + v.msg + "\nrun seed " + std::to_string(p0.seed) + (froze ? "" : "\nnot reproduced from the recorded decisions; plan replays by seed"));
  printf("FOUND %s %s %s\n", VN[v.cls], f.c_str(), v.msg.c_str()); fflush(stdout); g_found = 1;
}
static StreamPlan compact(const StreamPlan &sp) { StreamPlan q; q.lastonly = sp.lastonly; std::vector<int> map(sp.ops.size(), -1); for (auto g : sp.seg) { if (g.op >= 0) { if (map[g.op] < 0) { map[g.op] = (int)q.ops.size(); q.ops.push_back(sp.ops[g.op]); } g.op = map[g.op]; } q.seg.push_back(g); } return q; }
static void found_stream(const StreamPlan &sp, const Verdict &v) {
  StreamPlan m = compact(g_nomin ? sp : stream_min(sp, v.cls)); Verdict w = run_stream(m, false); std::string f = g_viol + ".plan"; stream_save(m, f, std::string("violation ") + VN[v.cls] + ": " + (w.cls ? w.msg : v.msg));
  printf("FOUND %s %s %s\n", VN[v.cls], f.c_str(), (w.cls ? w.msg : v.msg).c_str()); fflush(stdout); g_found = 1;
}
static void found_ref(const Op &o, const Ref &q) {
  Plan p = single(o); Verdict v; v.cls = q.vclass; v.msg = std::string(rt_desc(o)) + " as the only call of a fresh process: " + q.msg;
  std::string f = g_viol + ".plan"; plan_save(p, f, std::string("violation ") + VN[v.cls] + ": " + v.msg);
  printf("FOUND %s %s %s\n", VN[v.cls], f.c_str(), v.msg.c_str()); fflush(stdout); g_found = 1;
}
// ------------------------------------------------------------------ batches
static u64 g_digest;
static void sweep(u64 seed, u64 b, int chunks);
static void permuted(u64 seed, u64 b, int runs);
static void discover(u64 seed, u64 b, int runs);
static void measured(u64 seed, u64 b, int runs);
static int g_sample;
static bool late() { return g_prop == "C19" || g_prop == "C20" || g_prop == "C21"; }
static bool with_c() { return rt_has_c && g_canary < 0 && g_prop != "C06"; } // some of the calls go through the C library
static void batch(u64 seed, u64 b, int runs, int mode) {
  Rng r(mix(mix(seed, b), mix(d2b(1.0) ^ g_prop.size(), (u64)g_prop[2] * 131 + g_engine.size() + mode * 7)));
  refs.clear();
  PoolReq q; q.canary = g_canary; q.grid = (b * 7 + r.below(7)) % GRID_N; q.size = 5 + (int)r.below(9); q.bad = g_prop == "C09"; if (g_prop == "C06") { q.c = true; q.mixc = r.chance(1, 2); } if (with_c() && r.chance(1, late() ? 3 : 5)) { q.c = true; q.mixc = true; } if ((g_prop == "C19" || g_prop == "C20") && r.chance(1, 2)) q.bad = true;
  q.grid = (b * 1013 + seed * 17) % GRID_N; // walks the whole (function, id, region) grid
  if (mode == 2) { S.batches++; sweep(seed, b, runs); return; }
  if (mode == 3) { S.batches++; permuted(seed, b, runs); return; }
  if (mode == 4) { S.batches++; discover(seed, b, runs); return; }
  if (mode == 5) { S.batches++; measured(seed, b, runs); return; }
  if (mode == 1) { q.size = 16 + (int)r.below(48); STEP_CAP = 6000; }
  Pool po; make_pool(r, q, po); S.badops += po.nbad;
  std::vector<Op> ok; for (auto &o : po.ops) { if (usable(o)) ok.push_back(o); else { Ref &z = ref(o).vclass ? ref(o) : ref(rust_of(o)); S.skipped++; if (own(z) || g_prop == "C09" || (g_prop == "C06" && o.surf == S_C && ref(o).vclass && !ref(rust_of(o)).vclass)) { found_ref(o, z); return; } } }
  if (g_prop == "C06") for (auto &o : ok) if (o.surf == S_C && !close_(ref(o).bits, ref(rust_of(o)).bits)) { Plan p = single(o); Verdict v = execute(p); if (v.cls) { found(p, v); return; } }
  po.ops = ok; if (ok.size() < 2) return; S.batches++;
  if (mode == 1) { // long histories
    for (int k = 0; k < runs && !g_found; k++) {
      StreamPlan sp; sp.ops = po.ops; u32 n = (u32)sp.ops.size(); u64 cost = 0; u32 style = r.below(5); auto work = [&](int o) { u32 n = insns(sp.ops[o]); return (u64)(n >= STEP_CAP ? 400000 : std::max<u32>(n, 200)); };
      u64 limit = style == 0 && r.chance(1, 3) ? STREAM_WORK * 5 : STREAM_WORK; auto add = [&](int o, int rep) { u64 c = work(o) * rep; if (cost + c > limit) return false; cost += c; sp.seg.push_back({o, rep}); return true; };
      if (style == 0) { int o = (int)r.below(n); u64 w = work(o); if (w >= STEP_CAP) { Ref &q = ref(sp.ops[o]); u32 cap = STEP_CAP, was = q.insns; STEP_CAP = 250000; q.stepped = false; w = insns(sp.ops[o]); w = w >= STEP_CAP || w < cap ? 800000 : w; STEP_CAP = cap; q.insns = was; } u64 rep = std::min<u64>(limit / 10 * 9 / w, 3000000); sp.seg.push_back({o, (int)std::max<u64>(1, rep)}); cost = limit / 10 * 9; for (u32 i = 0; i < n; i++) if (!add(i, 1)) { cost = 0; add(i, 1); } }
      else { u32 hot = 1 + r.below(n); u32 churn = style == 3 ? 50 + r.below(500) : 0; for (int i = 0; i < 60000; i++) { if (churn && r.below(churn) == 0) sp.seg.push_back({-1, 0}); int o = (int)(style == 1 ? r.below(n) : style == 2 ? (u32)i % n : r.chance(3, 4) ? r.below(hot) : r.below(n)); if (!add(o, style == 4 && r.chance(1, 50) ? 1 + (int)r.below(3000) : 1)) break; } }
      Verdict v = run_stream(sp); g_digest = mix(g_digest, ss->idx ^ (u64)v.cls << 32); g_hashes.insert(mix(mix(b, k), ss->idx)); if (v.cls) found_stream(sp, v);
    }
    return;
  }
  for (int k = 0; k < runs && !g_found; k++) {
    Plan p = make_plan(r, po, g_prop);
    Verdict v = execute(p); g_digest = mix(g_digest, shm->hash ^ shm->points); u64 h = shm->hash; for (auto &t : p.th) for (int o : t.ops) h = mix(h, o); g_hashes.insert(mix(h, b * 0));
    if (g_sample > 0) { g_sample--; std::string t; for (size_t i = 0; i < p.th.size(); i++) { t += (i ? " | " : "") + std::string("thread ") + std::to_string(i) + ":"; for (int o : p.th[i].ops) t += std::string(" ") + rt_desc(p.ops[o]) + ","; for (int o : p.th[i].tlsd) t += std::string(" at thread exit ") + rt_desc(p.ops[o]) + ","; }
      static const char *PN[] = {"given decisions only", "random", "lockstep", "priorities"}; t += std::string(" | policy ") + PN[p.pol.type] + " | seed " + std::to_string(p.seed) + " | decisions taken:"; for (u32 i = 0; i < shm->ndec && i < 12; i++) t += std::string(" ") + ACT[shm->dec[i].act] + "(t" + std::to_string(shm->dec[i].th) + " call " + std::to_string(shm->dec[i].frame & 0xfffff) + " point " + std::to_string(shm->dec[i].pt) + " -> " + std::to_string(shm->dec[i].arg) + ")"; char hb[64]; snprintf(hb, 64, " (%u in all) | hash %016llx", shm->ndec, (unsigned long long)shm->hash); printf("SAMPLE %s%s\n", t.c_str(), hb); }
    if (getenv("SIM_TRACE")) { fprintf(stderr, "batch %llu run %d: nres %u pts %llu sh %llu sw %llu int %llu crash %llu cls %s\n", (unsigned long long)b, k, shm->nres, (unsigned long long)shm->points, (unsigned long long)shm->shpoints, (unsigned long long)shm->fired[F_SW], (unsigned long long)shm->fired[F_INT], (unsigned long long)shm->fired[F_CRASH], VN[v.cls]); }
    if (v.cls) found(p, v);
  }
}
// sweeps: many distinct (mostly corrupted) calls at native speed in one process, with a witness call in between
struct SweepShm { Op cur; volatile u64 idx; volatile int status; };
static SweepShm *sw; static const int CHUNK = 3000;
static void sweep(u64 seed, u64 b, int chunks) {
  u64 bs = mix(mix(seed, b), 0x53EE9 + g_prop[2] + g_engine.size());
  auto gen = [&](u64 c, u64 i, const std::vector<State> &st) { Rng r(mix(mix(bs, c), i)); Op o = sweep_op(r, st, true); if (with_c() && o.surf == S_RUST && r.chance(1, 8)) o.surf = S_C; return o; };
  for (u64 c = 0; c < (u64)chunks && !g_found; c++) {
    u64 start = 0; int hangs = 0;
    Op wit; wit.fn = 0; wit.x = d2b(16.0); wit.y = d2b(300.0 + (double)(c % 40)); wit.o = 4; u64 wb = ref(wit).bits; if (ref(wit).vclass) { found_ref(wit, ref(wit)); return; }
    while (start < (u64)CHUNK && !g_found) {
      sw->idx = start; sw->status = 0; int st = 0;
      rt_forked([&] {
        g_cur = &sw->cur; std::vector<State> sv; Rng r(mix(bs, c ^ 0xABCD)); sweep_states(r, sv); sw->status = 1;
        for (u64 i = start; i < (u64)CHUNK; i++) {
          Op o = gen(c, i, sv); sw->cur = o; double v = 0; sw->idx = i; int s = rt_call_raw(o, &v);
          if (s) { sw->status = 2; _exit(6); }
          if (g_prop == "C06" && o.surf == S_RUST) { Op q = o; q.surf = S_C; sw->cur = q; double w = 0; rt_call_raw(q, &w); if (!close_(d2b(v), d2b(w))) { sw->status = 4; _exit(6); } }
          if (g_prop == "C05") for (int k = 0; k < 4; k++) { double w = 0; rt_call_at(o, mix(mix(bs, c), i * 4 + k), &w); if (d2b(w) != d2b(v) && !(isn(d2b(w)) && isn(d2b(v)))) { sw->status = 10; _exit(6); } }
          if (g_prop == "C08") { Rng q(mix(mix(bs, c), ~i)); Op z = o; z.mx = rand_mx(q); z.cw = rand_cw(q); double w = 0, u = 0; sw->cur = z; u32 m0 = _mm_getcsr(); u16 c0, c1, cz = (u16)z.cw; asm volatile("fnstcw %0" : "=m"(c0)); if ((m0 & 0xffc0) != 0x1f80) { sw->status = 8; sw->cur = o; _exit(6); }
            _mm_setcsr(z.mx); asm volatile("fldcw %0" ::"m"(cz)); rt_call_raw(z, &w); u32 m1 = _mm_getcsr(); asm volatile("fnstcw %0" : "=m"(c1)); _mm_setcsr(0x1f80); asm volatile("fnclex; fldcw %0" ::"m"(c0));
            if ((m1 & 0xffc0) != (z.mx & 0xffc0) || c1 != cz) { sw->status = 8; _exit(6); }
            if (!(z.mx & 0x6000) && ftz_free(z, d2b(v)) && (!(z.mx & 0x8040) || z.surf != S_RUSTREG || (rt_call_raw(rust_of(o), &u), d2b(u) == d2b(v))) && d2b(w) != d2b(v) && !(isn(d2b(w)) && isn(d2b(v)))) { sw->status = 9; _exit(6); } }
          if ((i & 31) == 31) { double w = 0; sw->cur = wit; if (rt_call_raw(wit, &w) || d2b(w) != wb) { sw->status = 3; _exit(6); } }
        }
        sw->status = 5;
      }, CPU_S, WALL_S, &st);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 99) _exit(99);
      S.streamcalls += sw->idx - start + 1; S.runs++;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sw->status == 5) break;
      Op o = sw->cur; Ref &q = ref(o);
      if (sw->status == 10 && !q.vclass) for (int k = 1; k <= 12; k++) { Plan p = single(o); p.th[0].ops.assign(40, 0); p.conf.stk = k * 7919; Verdict v = execute(p); if (v.cls) { found(p, v); return; } }
      else if (sw->status >= 8 && !q.vclass) { Plan p = single(o); p.ops[0].mx = o.mx; p.ops[0].cw = o.cw; Verdict v = execute(p); if (v.cls) { found(p, v); return; } }
      if (o.surf == S_C && !q.vclass) { Plan p = single(o); Verdict v = execute(p); if (v.cls) { found(p, v); return; } }
      if (q.vclass) { found_ref(o, q); return; }
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) { S.incomplete++; if (sw->status == 0 || ++hangs > 3) break; start = sw->idx + 1; continue; } // slow machine, no single slow call
      // the call is fine alone: show the history
      std::vector<State> sv; { Rng r(mix(bs, c ^ 0xABCD)); struct Sv { int n; State s[16]; }; static Sv *m = (Sv *)mmap(nullptr, sizeof(Sv), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); m->n = 0; rt_forked([&] { std::vector<State> t; sweep_states(r, t); for (auto &x : t) if (m->n < 16) m->s[m->n++] = x; }, CPU_S, WALL_S, nullptr); for (int i = 0; i < m->n; i++) sv.push_back(m->s[i]); }
      if (sv.empty()) break;
      StreamPlan sp; for (u64 i = start; i <= sw->idx; i++) { Op x = gen(c, i, sv); if (ref(x).vclass) continue; sp.ops.push_back(x); sp.seg.push_back({(int)sp.ops.size() - 1, 1}); if ((i & 31) == 31) { sp.ops.push_back(wit); sp.seg.push_back({(int)sp.ops.size() - 1, 1}); } }
      if (!o.same(wit)) { sp.ops.push_back(o); sp.seg.push_back({(int)sp.ops.size() - 1, 1}); }
      Verdict v = run_stream(sp, false); if (v.cls) { found_stream(sp, v); return; }
      start = sw->idx + 1; S.incomplete++;
    }
    g_digest = mix(g_digest, sw->idx); g_hashes.insert(mix(bs, c));
  }
}
// permuted histories: the same set of distinct calls in two orders, each in a process of its own; any difference is traced back to what the call returns alone
static const u64 PERM_MAX = 2500000, PERM_WORK = getenv("SIM_PERM") ? strtoull(getenv("SIM_PERM"), nullptr, 10) : 4000000000ull; static u64 *pa[2];
static void permuted(u64 seed, u64 b, int runs) {
  if (!pa[0]) for (auto &q : pa) q = (u64 *)mmap(nullptr, PERM_MAX * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  struct Sv { int n; State s[512]; }; static Sv *m = (Sv *)mmap(nullptr, sizeof(Sv), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int c = 0; c < runs && !g_found; c++) {
    u64 bs = mix(mix(seed, b), 0xBE23 + (u64)c * 977 + g_prop[2]); Rng r(bs); u64 k = b * runs + c; int fn = (int)(k % 12), reg = 1 + (int)(k / 12 % 5), style = k < 60 ? 0 : (int)(k / 60 % 4), id = (int)r.below(36); bool mixreg = style >= 2, mixfn = style & 1, fixid = r.chance(1, 2);
    m->n = 0; rt_forked([&] { Rng rr(bs ^ 0x51); for (int i = 0; i < 400; i++) { int g = mixreg ? 1 + i % 5 : reg; std::vector<State> one; if (sweep_state(rr, g, m->s[m->n])) m->n++; } }, CPU_S * 2, WALL_S, nullptr);
    if (m->n < 2) continue;
    std::vector<State> st(m->s, m->s + m->n);
    auto gen = [&](u64 i) { Rng q(mix(bs, i)); const State &s = st[q.below((u32)st.size())]; double x, y; Op a; a.fn = mixfn ? (int)q.below(12) : fn; state_args(s, a.fn, x, y); if (q.chance(3, 4)) x *= 1 + (q.unit() - .5) * 2e-3; if (q.chance(3, 4)) y *= 1 + (q.unit() - .5) * 2e-3; a.x = d2b(x); a.y = d2b(y); a.o = fixid ? id : (int)q.below(37); a.surf = g_prop == "C06" ? S_C : S_RUST; if (a.surf == S_RUST && a.fn < 8 && q.chance(1, 10)) { a.surf = S_RUSTREG; a.reg = s.reg; } if (q.chance(1, 24)) a = corrupt(q, a); if (with_c() && a.surf == S_RUST && q.chance(1, 8)) a.surf = S_C; return a; };
    u64 cost = 0; { u32 cap = STEP_CAP; STEP_CAP = 40000; refs.clear(); for (u64 i = 0; i < 16; i++) { u32 n = insns(gen(i)); cost += n >= 40000 ? 500000 : n + 100; } STEP_CAP = cap; refs.clear(); cost /= 16; }
    u64 N = std::min<u64>(PERM_MAX, std::max<u64>(300, PERM_WORK / cost));
    bool lost = true;
    for (int att = 0; att < 2 && lost; att++, N = std::max<u64>(300, N / 16)) { lost = false;
    for (int pass = 0; pass < 2; pass++) {
      sw->idx = 0; sw->status = 0; int st_ = 0;
      rt_forked([&] { struct A { std::function<bool(u64)> f; u64 from, to; }; auto call = [&](u64 j) { u64 i = pass ? N - 1 - j : j; Op o = gen(i); sw->cur = o; double v = 0; int s = rt_call_raw(o, &v); pa[pass][i] = d2b(v); sw->idx = j; if (rt_kept() > KEEP_MAX) { sw->status = 11; _exit(6); } if (s) { sw->status = 2; _exit(6); } return true; };
        if (!pass) for (u64 j = 0; j < N; j++) call(j);
        else for (u64 from = 0; from < N; from += 100000) { A a{call, from, std::min(N, from + 100000)}; pthread_t t; if (pthread_create(&t, nullptr, [](void *q) -> void * { A *a = (A *)q; for (u64 j = a->from; j < a->to; j++) a->f(j); return nullptr; }, &a)) _exit(99); pthread_join(t, nullptr); }
        sw->status = 5; }, att ? CPU_S * 10 : CPU_S * 3, WALL_S * 3, &st_);
      if (WIFEXITED(st_) && WEXITSTATUS(st_) == 99) _exit(99);
      S.streamcalls += sw->idx + 1; S.runs++;
      if (!(WIFEXITED(st_) && WEXITSTATUS(st_) == 0 && sw->status == 5)) {
        lost = true; S.incomplete++; if (WIFSIGNALED(st_) && (WTERMSIG(st_) == SIGPROF || WTERMSIG(st_) == SIGALRM)) break;
        Op o = sw->cur; if (ref(o).vclass) { if (g_prop == "C06" && !ref(rust_of(o)).vclass) { found_ref(o, ref(o)); return; } break; }
        StreamPlan sp; sp.lastonly = true; for (u64 j = 0; j <= sw->idx + 1 && j < N; j++) { if (pass && j % 100000 == 0) sp.seg.push_back({-1, 0}); Op x = gen(pass ? N - 1 - j : j); sp.ops.push_back(x); sp.seg.push_back({(int)sp.ops.size() - 1, 1}); if (x.same(o) && j >= sw->idx) break; }
        Verdict v = run_stream(sp, false); if (v.cls) { found_stream(sp, v); return; }
        break;
      }
    }
    if (!lost) break; }
    if (getenv("SIM_TRACE")) fprintf(stderr, "perm %llu fn %d reg %d style %d id %d cost %llu N %llu lost %d t %.1f\n", (unsigned long long)k, fn, reg, style, fixid ? id : -1, (unsigned long long)cost, (unsigned long long)N, lost, (double)clock() / CLOCKS_PER_SEC);
    g_digest = mix(g_digest, lost ? 1 : N); g_hashes.insert(mix(bs, N));
    if (lost) continue;
    int tries = 0;
    for (u64 i = 0; i < N && tries < 6; i++) {
      if (pa[0][i] == pa[1][i] || (isn(pa[0][i]) && isn(pa[1][i]))) continue;
      tries++; Op o = gen(i); if (ref(o).vclass) continue; u64 want = ref(o).bits; int pass = pa[0][i] != want && !(isn(pa[0][i]) && isn(want)) ? 0 : 1; u64 last = pass ? N - 1 - i : i;
      auto seqn = [&](u64 from) { StreamPlan sp; sp.lastonly = true; for (u64 j = from; j <= last; j++) { if (pass && j % 100000 == 0) sp.seg.push_back({-1, 0}); sp.ops.push_back(gen(pass ? N - 1 - j : j)); sp.seg.push_back({(int)sp.ops.size() - 1, 1}); } return sp; };
      for (u64 w = 2; !g_found; w *= 4) { bool all = w > last; StreamPlan sp = seqn(all ? 0 : last + 1 - w); Verdict v = run_stream(sp, false);
        if (v.cls) { if (w > 4096) { StreamPlan z; z.lastonly = true; z.ops = {sp.ops[0], sp.ops.back()}; z.seg = {{0, (int)sp.ops.size() - 1}, {1, 1}}; Verdict zv = run_stream(z, false); if (zv.cls == v.cls) { sp = z; v = zv; } } found_stream(sp, v); return; }
        if (all) break; }
    }
  }
}
// while one call is between two of its touches of lasting memory, another caller (or a handler) makes so many calls that counters come round
static void bursts(Rng &r, const Pool &po) {
  for (int z = 0; z < 4 && !g_found; z++) {
    Op a = po.ops[r.below((u32)po.ops.size())], b = r.chance(1, 2) ? a : po.ops[r.below((u32)po.ops.size())]; Ref qa = ref(a); if (qa.shpt.empty() || qa.vclass || ref(b).vclass) continue;
    static const int N[] = {256, 256, 256, 128, 64, 512, 1024, 4096}; int n = N[r.below(8)], d = std::min(n, 128); u64 c = ref(b).pts + 1; if (n * c > 1500000) continue;
    Plan p; p.prop = g_prop; p.engine = g_engine; p.seed = r.next(); p.ops.push_back(a); double e = std::pow(10., -(int)(3 + r.below(6)));
    for (int i = 0; i < d; i++) { Op o = b; o.x = d2b(b2d(o.x) * (1 - e * (i + 1) / d)); if (r.chance(1, 2)) o.y = d2b(b2d(o.y) * (1 + e * r.unit() / d)); p.ops.push_back(usable(o) ? o : b); }
    std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(1 + i % d);
    ThreadSpec t; t.ops = {0, 0}; p.th.push_back(t); if (g_prop == "C03") p.seqs.push_back(v); else { t.ops = v; p.th.push_back(t); }
    for (size_t k = 0; k < std::min<size_t>(qa.shpt.size(), 12) * 2 && !g_found; k++) { p.dec.clear(); p.dec.push_back({0, (u16)(g_prop == "C03" ? A_INT : A_SW), 2, qa.shpt[k / 2] + (u32)(k & 1), g_prop == "C03" ? 0 : 1}); Verdict w = execute(p); g_digest = mix(g_digest, shm->hash ^ shm->points); g_hashes.insert(shm->hash); S.directed++; if (w.cls) found(p, w); }
  }
}
// directed search: probe many calls for code that touches memory outliving the call, allocates or asks the system, and aim the campaign at the rarest of it
static void discover(u64 seed, u64 b, int runs) {
  static const int D = 20000; struct Sh { int n; State s[64]; u64 m[D][4]; }; static Sh *sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 bs = mix(mix(seed, b), 0xD15C0 + g_prop[2]); sh->n = 0; memset(sh->m, 0, sizeof sh->m);
  rt_forked([&] { Rng r(bs); for (int i = 0; i < 60; i++) if (sweep_state(r, 1 + i % 5, sh->s[sh->n])) sh->n++; }, CPU_S * 2, WALL_S, nullptr);
  if (sh->n < 2) return; std::vector<State> st(sh->s, sh->s + sh->n);
  auto surf = [&](Rng &r, Op o) { if ((g_prop == "C06" && r.chance(3, 4)) || (with_c() && o.surf == S_RUST && r.chance(1, late() ? 4 : 6))) o.surf = S_C; return o; };
  auto gen = [&](u64 i) { Rng r(mix(bs, i)); Op o = sweep_op(r, st, g_prop == "C09" || i % 16 == 0); for (int z = 0; z < 2 && ((o.fn == 3 && r.chance(9, 10)) || (o.fn == 7 && r.chance(3, 4))); z++) o = sweep_op(r, st, false); return surf(r, o); };
  auto probe = [&](std::function<Op(u64)> g, int n) { u64 from = 0; for (int k = 0; k < 6 && from < (u64)n; k++) { int w = 0; sw->idx = from; sw->status = 0; rt_forked([&] { for (u64 i = from; i < (u64)n; i++) { sw->idx = i; double v; rt_probe(g(i), &v, sh->m[i]); } sw->status = 5; }, CPU_S * 4, WALL_S, &w); if (WIFEXITED(w) && WEXITSTATUS(w) == 99) _exit(99); if (sw->status == 5) { from = n; break; } S.incomplete++; from = sw->idx + 1; } return from; };
  S.streamcalls += probe(gen, D); S.runs++; S.probed += D;
  u64 freq[256] = {}; std::vector<int> in; auto bits = [&](int i, auto f) { for (int k = 0; k < 4; k++) for (u64 m = sh->m[i][k]; m; m &= m - 1) f(k * 64 + __builtin_ctzll(m)); };
  for (int i = 0; i < D; i++) { bool z = false; bits(i, [&](int k) { freq[k]++; z = true; }); if (z) in.push_back(i); }
  S.stateful += in.size(); g_digest = mix(g_digest, in.size()); g_hashes.insert(mix(bs, in.size()));
  if (in.empty()) return;
  struct C { int i, bit; u64 w; }; std::vector<C> c; for (int i : in) { C x{i, 0, ~0ull}; bits(i, [&](int k) { if (freq[k] < x.w) { x.w = freq[k]; x.bit = k; } }); c.push_back(x); }
  std::stable_sort(c.begin(), c.end(), [](const C &a, const C &b) { return a.w < b.w; });
  std::vector<int> sites; for (auto &x : c) if (std::find(sites.begin(), sites.end(), x.bit) == sites.end()) sites.push_back(x.bit);
  Rng r(mix(bs, 0xF0C5)); int groups = std::max(4, (int)sites.size());
  for (int g = 0; g < groups && !g_found; g++) {
    std::vector<int> mem; int bit = sites[g % sites.size()]; for (auto &x : c) if (sh->m[x.i][bit >> 6] >> (bit & 63) & 1) mem.push_back(x.i);
    std::vector<Op> cand; Op base = gen(mem[r.below((u32)mem.size())]); cand.push_back(base);
    for (int k = 0; k < 80; k++) { Op a = r.chance(1, 3) ? gen(mem[r.below((u32)mem.size())]) : k && r.chance(1, 2) ? cand[r.below((u32)cand.size())] : base; if (r.chance(1, 6)) a = vary(r, a, true); else if (r.chance(4, 5)) a = vary(r, a, false); cand.push_back(a); }
    static Sh *keep = nullptr; if (!keep) keep = (Sh *)malloc(sizeof(Sh)); memcpy(keep, sh, sizeof(Sh)); memset(sh->m, 0, sizeof(u64) * 4 * cand.size());
    u64 n = probe([&](u64 i) { return cand[i]; }, (int)cand.size()); std::vector<Op> pool; for (u64 i = 0; i < n && pool.size() < 8; i++) if (sh->m[i][bit >> 6] >> (bit & 63) & 1) pool.push_back(cand[i]);
    memcpy(sh, keep, sizeof(Sh));
    for (int k = 0; k < 3; k++) pool.push_back(gen(in[r.below((u32)in.size())])); pool.push_back(gen(r.below(D)));
    Pool po; po.st = st; for (auto &o : pool) if (usable(o)) po.ops.push_back(o); else S.skipped++;
    if (po.ops.size() < 2) continue;
    if (g_prop == "C01" || g_prop == "C03" || g_prop == "C06") bursts(r, po);
    for (int k = 0; k < runs && !g_found; k++) { Plan p = make_plan(r, po, g_prop); Verdict v = execute(p); g_digest = mix(g_digest, shm->hash ^ shm->points); g_hashes.insert(mix(shm->hash, g)); S.directed++; if (v.cls) found(p, v); }
  }
}
static bool g_exact; // no simulator frames and signal frames on the small stack
static void modes() { if (g_prop == "C19") g_small = SMALL_STACK + (g_exact ? 0 : 48 << 10); if (g_prop == "C20") { g_trace = true; if (g_memfd < 0) g_memfd = fcntl(memfd_create("out", 0), F_DUPFD, 200); } }
// measured sweeps: many distinct calls in one process; how much stack each needs, what memory each keeps, and what is left behind at the end. Calls that need or keep the most are varied further.
static void measured(u64 seed, u64 b, int chunks) {
  static const int M = 4000, AMP = 60000; struct Log { volatile u32 n; volatile u32 maxused; volatile u64 maxkept; Op op[M + AMP]; }; static Log *lg = (Log *)mmap(nullptr, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64 bs = mix(mix(seed, b), 0x3EA50 + g_prop[2] * 7 + g_engine.size());
  for (u64 c = 0; c < (u64)chunks && !g_found; c++) {
    int hangs = 0; u64 salt = 0;
  again:
    lg->n = 0; sw->status = 0; ss->msg[0] = 0; int st = 0; g_paint = g_small != 0;
    rt_forked([&] {
      g_cur = &sw->cur; std::vector<State> sv; Rng r(mix(mix(bs, c), salt)); sweep_states(r, sv); rt_trace_begin(); sw->status = 1; struct Top { u64 v; Op o; }; std::vector<Top> top; double v; std::vector<u32> use0; bool growing = false;
      auto call = [&](const Op &o) { sw->cur = o; lg->op[lg->n] = o; lg->n = lg->n + 1; u64 k0 = rt_kept(); int s = rt_call_raw(o, &v); if (s) { sw->status = 2; _exit(6); }
        if (g_small && use0.size() < 300) use0.push_back(rt_stack_used()); u64 w = g_small ? rt_stack_used() : rt_kept() > k0 ? rt_kept() - k0 : 0; if (g_small && w > lg->maxused) lg->maxused = (u32)w; if (rt_kept() > lg->maxkept) lg->maxkept = rt_kept(); if (g_trace && rt_trace_said()) { sw->status = 11; _exit(7); } if (rt_kept() > KEEP_MAX) { sw->status = 11; rt_trace_end(ss->msg, 300); _exit(7); }
        if (w && (top.size() < 12 || w > top.back().v)) { top.push_back({w, o}); std::stable_sort(top.begin(), top.end(), [](const Top &a, const Top &b) { return a.v > b.v; }); if (top.size() > 12) top.pop_back(); } };
      for (int i = 0; i < M; i++) { Op o = top.size() && r.chance(1, g_small ? 3 : 8) ? vary(r, top[r.below((u32)top.size())].o, r.chance(1, 4)) : sweep_op(r, sv, true); if (g_canary >= 0) { o.surf = S_CANARY + g_canary; o.fn = 0; } else if (rt_has_c && o.surf == S_RUST && r.chance(1, 4)) o.surf = S_C; call(o); }
      if (g_small) { // calls that by now need more stack than the first time: the need grows with the history
        std::vector<Top> grown; u32 n0 = lg->n; for (u32 i = 0; i < n0 && i < 300; i++) { u32 n1 = lg->n; call(lg->op[i]); u32 w = rt_stack_used(); if (i < use0.size() && w > use0[i]) grown.push_back({w - use0[i], lg->op[i]}); (void)n1; }
        std::stable_sort(grown.begin(), grown.end(), [](const Top &a, const Top &b) { return a.v > b.v; }); if (grown.size() > 12) grown.resize(12); if (grown.size()) top = grown, growing = true; }
      if (top.size() && (g_trace ? c < 40 : c == 0 || growing)) { auto t0 = std::chrono::steady_clock::now(); for (int i = 0; i < (g_trace ? AMP : AMP / 6); i++) { Op o = top[r.below((u32)top.size())].o; if (r.chance(1, 3)) o = vary(r, o, false); if (r.chance(2, 3)) { o.x = d2b(b2d(o.x) * (1 + (r.unit() - .5) * 1e-4)); o.y = d2b(b2d(o.y) * (1 + (r.unit() - .5) * 1e-4)); } call(o); if ((i & 255) == 255 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 3) break; } }
      if (rt_trace_end(ss->msg, sizeof ss->msg)) { sw->status = 11; _exit(7); }
      sw->status = 5;
    }, CPU_S * 3, WALL_S, &st);
    g_paint = false; if (WIFEXITED(st) && WEXITSTATUS(st) == 99) _exit(99);
    S.streamcalls += lg->n; S.runs++; if (lg->maxused > S.maxstack) S.maxstack = lg->maxused; if (lg->maxkept > S.maxkept) S.maxkept = lg->maxkept; S.fired[g_small ? F_SMALL : F_COMPARE] += g_small ? lg->n : 1; S.runs_with[g_small ? F_SMALL : F_COMPARE]++;
    g_digest = mix(g_digest, lg->n); g_hashes.insert(mix(bs, c));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sw->status == 5) continue;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) { S.incomplete++; if (++hangs < 3) { salt++; goto again; } continue; }
    if (!lg->n) continue;
    Op o = lg->op[lg->n - 1]; Ref &q = ref(o); if (own(q)) { found_ref(o, q); return; }
    StreamPlan one; one.lastonly = true; one.ops = {o}; one.seg = {{0, 1}}; if (sw->status == 11 && !q.vclass) { Verdict v = run_stream(one, false); if (v.cls) { found_stream(one, v); return; } }
    StreamPlan sp; sp.lastonly = true; for (u32 i = 0; i < lg->n; i++) { sp.ops.push_back(lg->op[i]); sp.seg.push_back({(int)i, 1}); } if (q.vclass && sw->status != 11) { S.incomplete++; if (++hangs < 3) { salt++; goto again; } continue; }
    Verdict v = run_stream(sp, false); if (v.cls == V_TRACE || v.cls == V_STACK) { found_stream(sp, v); return; } S.incomplete++;
  }
}
int main(int argc, char **argv) {
  std::map<std::string, std::string> a; for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  if (!getenv("SIM_ASLR") && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  ss = (StreamShm *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sw = (SweepShm *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  int w = atoi(a["--cpu"].c_str()); if (a.count("--cpu")) { cpu_set_t c; CPU_ZERO(&c); CPU_SET(w, &c); sched_setaffinity(0, sizeof c, &c); }
  rt_load(a["--so"].c_str(), a["--patch"].c_str());
  g_prop = a["--prop"]; modes(); if (a.count("--engine")) { g_engine = a["--engine"]; modes(); } if (a.count("--canary")) g_canary = atoi(a["--canary"].c_str()); g_viol = a["--viol"]; g_nomin = a.count("--nomin");
  if (a.count("--replay")) {
    std::string f = a["--replay"]; FILE *q = fopen(f.c_str(), "r"); char ln[64] = ""; if (!q || !fgets(ln, 64, q)) { fprintf(stderr, "cannot read %s\n", f.c_str()); return 99; } fclose(q);
    Verdict v; if (!strncmp(ln, "simstream", 9)) { StreamPlan sp; if (!stream_load(sp, f)) return 99; g_exact = true; modes(); v = run_stream(sp); }
    else { Plan p; if (!plan_load(p, f)) return 99; g_prop = p.prop; g_engine = p.engine; g_exact = g_engine == "native" && p.dec.empty(); modes(); for (auto &o : p.ops) { Ref &z = ref(o); if (own(z) || (z.vclass && (g_prop == "C09" || g_prop == "C06"))) { v.cls = z.vclass; v.msg = std::string(rt_desc(o)) + ": " + z.msg; } } if (!v.cls) v = execute(p); printf("schedule hash %016llx\n", (unsigned long long)shm->hash); }
    printf("REPLAY %s %s\n", VN[v.cls], v.msg.c_str()); return v.cls ? 1 : 0;
  }
  u64 seed = strtoull(a["--seed"].c_str(), nullptr, 10), from = strtoull(a["--from"].c_str(), nullptr, 10), to = strtoull(a["--to"].c_str(), nullptr, 10), step = a.count("--stride") ? strtoull(a["--stride"].c_str(), nullptr, 10) : 1; int runs = atoi(a["--runs"].c_str()), mode = a.count("--mode") ? atoi(a["--mode"].c_str()) : 0; g_exact = g_engine == "native" && mode; modes(); double tl = a.count("--tlimit") ? atof(a["--tlimit"].c_str()) : 1e9;
  if (a.count("--sample")) { g_sample = atoi(a["--sample"].c_str()); runs = g_sample; }
  if (a.count("--refs")) { // print what calls return alone (for comparison between differently configured processes)
    if (a.count("--opsfrom")) { Plan p; if (!plan_load(p, a["--opsfrom"])) return 99; for (auto &o : p.ops) { Ref &q = ref(o); printf("REF %s %016llx %s\n", q.vclass ? VN[q.vclass] : "ok", (unsigned long long)q.bits, rt_desc(o)); } return 0; }
    for (u64 b = from; b < to; b += step) { Rng r(mix(seed, b)); PoolReq q; q.grid = (b * 1013 + seed * 17) % GRID_N; q.size = 24; Pool po; make_pool(r, q, po); for (auto &o : po.ops) { Ref &q = ref(o); printf("REF %s %016llx %s | op 0 %d %d %016llx %016llx %d %d 1f80 37f\n", q.vclass ? VN[q.vclass] : "ok", (unsigned long long)q.bits, rt_desc(o), o.surf, o.fn, (unsigned long long)o.x, (unsigned long long)o.y, o.o, o.reg); } }
    return 0;
  }
  auto t0 = std::chrono::steady_clock::now(); bool trunc = false; u64 done = 0;
  for (u64 b = from; b < to && !g_found; b += step) {
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tl) { trunc = true; break; }
    g_digest = 0xabc; batch(seed, b, runs, mode); done++;
    if (a.count("--digests")) printf("DIGEST %llu %016llx\n", (unsigned long long)b, (unsigned long long)g_digest);
  }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  printf("STATS {\"runs\":%llu,\"batches\":%llu,\"reference_runs\":%llu,\"minimiser_runs\":%llu,\"calls\":%llu,\"nested_calls\":%llu,\"child_calls\":%llu,\"destructor_calls\":%llu,\"exit_handler_calls\":%llu,\"history_calls\":%llu,\"thread_churn\":%llu,\"points\":%llu,\"shared_points\":%llu,\"max_points_per_call\":%llu,\"virtual_ns\":%llu,\"stopped_calls\":%llu,\"skipped_ops\":%llu,\"corrupted_ops\":%llu,\"values_not_compared\":%llu,\"probed_calls\":%llu,\"calls_touching_lasting_state\":%llu,\"directed_runs\":%llu,\"abandoned_calls\":%llu,\"max_stack_bytes\":%llu,\"max_kept_bytes\":%llu,\"truncated\":%d,\"elapsed\":%.2f,\"fired\":{", (unsigned long long)S.runs, (unsigned long long)done, (unsigned long long)S.refs, (unsigned long long)S.minruns, (unsigned long long)S.ops, (unsigned long long)S.nested, (unsigned long long)S.childops, (unsigned long long)S.dtor, (unsigned long long)S.exitc, (unsigned long long)S.streamcalls, (unsigned long long)S.churn, (unsigned long long)S.points, (unsigned long long)S.shpoints, (unsigned long long)S.maxpts, (unsigned long long)S.vtime, (unsigned long long)S.incomplete, (unsigned long long)S.skipped, (unsigned long long)S.badops, (unsigned long long)S.valueskip, (unsigned long long)S.probed, (unsigned long long)S.stateful, (unsigned long long)S.directed, (unsigned long long)S.abandoned, (unsigned long long)S.maxstack, (unsigned long long)S.maxkept, trunc ? 1 : 0, el);
  for (int i = 0; i < 10; i++) printf("%s\"cfg:%s\":[%llu,%llu]", i ? "," : "", CFGN[i], (unsigned long long)S.cfg[i], (unsigned long long)S.cfg[i]);
  printf(",");
  for (int i = 0; i < F_N; i++) printf("%s\"%s\":[%llu,%llu]", i ? "," : "", FNAME[i], (unsigned long long)S.fired[i], (unsigned long long)S.runs_with[i]);
  printf("}}\n");
  if (a.count("--hashes")) { FILE *f = fopen(a["--hashes"].c_str(), "wb"); for (u64 h : g_hashes) fwrite(&h, 8, 1, f); fclose(f); }
  return g_found ? 1 : 0;
}
