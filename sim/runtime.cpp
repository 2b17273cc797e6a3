// Runtime of the simulator: compiler hooks, scheduler, virtual kernel, fault injection.
#include "sim.h"
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <cpuid.h>
#include <immintrin.h>
#include <locale.h>
#include <setjmp.h>
#include <dirent.h>

Shm *shm;
bool rt_has_c;
bool g_step_count; u32 g_step_cap = 3000000;

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static inline long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { return raw6(n, a, b, c, d, e, f); }
static inline long rawe(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) { long r = raw6(n, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
#define NOFP __attribute__((target("general-regs-only")))

// ---------------------------------------------------------------- library binding
typedef int (*call_t)(int, int, double, double, int, int, double *);
typedef double (*cfn_s)(double, double, short);
typedef double (*cfn_i)(double, double, int);
static call_t L_call; static void (*L_touch)(); static void *L_c[12]; static u64 (*L_hook)(); static void *L_h[2];
struct Range { u64 a, b; };
static Range RO[64]; static int nRO;
static struct { u64 addr; int kind; int len; } PATCH[256]; static int nPATCH;

void rt_load(const char *so, const char *patchlist) {
  void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(99); }
  L_call = (call_t)dlsym(h, "sim_call"); L_touch = (void (*)())dlsym(h, "sim_touch"); L_hook = (u64 (*)())dlsym(h, "sim_hook"); L_h[0] = h;
  if (void (*ini)() = (void (*)())dlsym(h, "sim_init")) ini();
  rt_has_c = true;
  const char *cso = getenv("SIM_CLIB"); void *hc = h;
  if (cso && *cso) { L_h[1] = hc = dlopen(cso, RTLD_NOW | RTLD_LOCAL); if (!hc) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(99); } }
  for (int i = 0; i < 12; i++) { L_c[i] = dlsym(hc, FN[i]); if (!L_c[i]) rt_has_c = false; }
  FILE *f = fopen("/proc/self/maps", "r"); char ln[1024]; u64 base = 0;
  const char *bn = strrchr(so, '/') ? strrchr(so, '/') + 1 : so;
  while (fgets(ln, sizeof ln, f)) {
    unsigned long a, b; char pr[8]; if (sscanf(ln, "%lx-%lx %7s", &a, &b, pr) != 3) continue;
    if (!strstr(ln, bn)) continue;
    if (!base) base = a;
    if (pr[1] != 'w' && nRO < 64) RO[nRO++] = {a, b};
  }
  fclose(f);
  // time-stamp counter, CPU identification and hardware randomness inside the library become traps
  if (patchlist && *patchlist && (f = fopen(patchlist, "r"))) {
    while (fgets(ln, sizeof ln, f)) {
      unsigned long off; char k[32]; int len; if (sscanf(ln, "%lx %31s %d", &off, k, &len) != 3 || nPATCH >= 256) continue;
      u8 *p = (u8 *)(base + off); mprotect((void *)((u64)p & ~4095ul), 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
      int kind = !strcmp(k, "cpuid") ? 1 : !strcmp(k, "rdtsc") ? 2 : !strcmp(k, "rdtscp") ? 3 : !strncmp(k, "rdrand", 6) ? 4 : !strncmp(k, "rdseed", 6) ? 4 : !strcmp(k, "xgetbv") ? 5 : 0;
      if (!kind) continue;
      PATCH[nPATCH++] = {(u64)p, kind | (kind == 4 ? (int)(((p[len - 1] & 7) | ((p[0] & 0xf0) == 0x40 && (p[0] & 1) ? 8 : 0)) << 8) : 0), len};
      p[0] = 0x0f; p[1] = 0x0b;
      mprotect((void *)((u64)p & ~4095ul), 8192, PROT_READ | PROT_EXEC);
    }
    fclose(f);
  }
}

// ---------------------------------------------------------------- simulated threads
const int MAXT = 48;
enum { T_READY, T_WAITSTART, T_FUTEX, T_JOIN, T_DONE, T_CRASHED };
struct Frame { u32 id, pts, shr, allocs, sysc; u32 di; u32 nextPt; Frame *prev; int ctx, lvl, depth; bool jok; jmp_buf jb; };
struct Thr {
  int id; pthread_t pth; u32 go; int st; u32 frameSeq; Frame *cur; u32 consec; u64 lo, hi; u32 blk;
  u32 *faddr; u64 deadline; bool woken, timedout; int jointgt; int depth; u32 prio; int final_round; bool dyn, joined; int eintr;
  void *(*start)(void *); void *arg; const ThreadSpec *spec; Frame exitf; char *small; u64 lo2, hi2;
  u32 vc[MAXT]; u32 relf[MAXT]; bool hasrelf;
};
static struct {
  const Plan *p; const Dec *dec; u32 ndec; Rng rng; u64 budget; Thr th[MAXT]; int nth; Thr *running; u32 done; u64 vt; u64 rndc; bool step, sud; bool inchild; u32 forks;
  u32 lowprio; u64 nextEvt; u64 pctpt[16]; int npct, ipct; pthread_key_t keyD, keyF; u32 fvc[MAXT]; bool exiting; u32 unl;
} G;
static __thread Thr *self; static __thread volatile int in_lib, in_sim; static __thread volatile char sud_sel;
static inline bool LIB() { return self && in_lib && !in_sim; }
static inline void set_lib(int v) { if (v) { in_lib = 1; if (G.sud) sud_sel = 1; } else { sud_sel = 0; in_lib = 0; } }
struct Sim { // code of the simulator running on a simulated thread inside the library
  int e; NOFP Sim() { sud_sel = 0; in_sim = 1; e = errno; } NOFP ~Sim() { errno = e; in_sim = 0; if (G.sud && in_lib) sud_sel = 1; } };
// simulated kernel calls set errno themselves
struct SimK { SimK() { sud_sel = 0; in_sim = 1; } ~SimK() { in_sim = 0; if (G.sud && in_lib) sud_sel = 1; } };

static inline NOFP void hashin(u64 v) { shm->hash = (shm->hash ^ v) * 0x100000001b3ull; shm->hash ^= shm->hash >> 29; }
static void fail(int vclass, const char *fmt, ...) {
  sud_sel = 0;
  if (!shm->vclass) { va_list a; va_start(a, fmt); vsnprintf(shm->msg, sizeof shm->msg, fmt, a); va_end(a); shm->vclass = vclass; }
  raw(SYS_exit_group, 4);
}
static inline NOFP void record(u16 th, u16 act, u32 frame, u32 pt, i32 arg) { u32 n = shm->ndec; if (n < (u32)MAXDEC) { shm->dec[n] = {th, act, frame, pt, arg}; shm->ndec = n + 1; } else { raw(SYS_exit_group, 98); } }
static NOFP void wait_go(Thr *t) { while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE); }
static NOFP void give_go(Thr *t) { G.running = t; __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE); raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0); }
static NOFP bool runnable(Thr *t) {
  if (t->st == T_READY) return true;
  if (t->st == T_WAITSTART) { int a = t->spec ? t->spec->after : -1; return a < 0 || a >= G.nth || G.th[a].st == T_DONE || G.th[a].st == T_CRASHED; }
  if (t->st == T_FUTEX) return t->woken;
  if (t->st == T_JOIN) return G.th[t->jointgt].st == T_DONE;
  return false;
}
static const Dec *find(u16 th, u16 act, u32 frame, u32 pt) {
  u32 lo = 0, hi = G.ndec; auto lt = [&](const Dec &d) { if (d.th != th) return d.th < th; if (d.frame != frame) return d.frame < frame; return d.pt < pt; };
  while (lo < hi) { u32 m = (lo + hi) / 2; if (lt(G.dec[m])) lo = m + 1; else hi = m; }
  for (; lo < G.ndec && G.dec[lo].th == th && G.dec[lo].frame == frame && G.dec[lo].pt == pt; lo++) if (G.dec[lo].act == act) return &G.dec[lo];
  return nullptr;
}
// choose who runs when the current thread cannot: default is the next id in turn; a decision can say otherwise
static NOFP Thr *pick(Thr *cur, u16 th, u32 frame, u32 pt) {
  for (int round = 0;; round++) {
    Thr *c[MAXT]; int n = 0; int from = cur ? cur->id + 1 : 0;
    for (int i = 0; i < G.nth; i++) { Thr *t = &G.th[(from + i) % G.nth]; if (t != cur && runnable(t)) c[n++] = t; }
    if (cur && runnable(cur)) c[n++] = cur;
    if (!n) { // jump to the next timer
      Thr *b = nullptr; for (int i = 0; i < G.nth; i++) { Thr *t = &G.th[i]; if (t->st == T_FUTEX && t->deadline && (!b || t->deadline < b->deadline)) b = t; }
      if (!b) return nullptr;
      if (G.vt < b->deadline) G.vt = b->deadline;
      b->woken = true; b->timedout = true; continue;
    }
    int k = 0;
    if (const Dec *d = find(th, A_SW, frame, pt)) { for (int i = 0; i < n; i++) if (c[i]->id == d->arg) k = i; }
    else if (G.p->pol.type == P_RANDOM || G.p->pol.type == P_LOCKSTEP) k = G.rng.below(n);
    else if (G.p->pol.type == P_PCT) { for (int i = 1; i < n; i++) if (c[i]->prio > c[k]->prio) k = i; }
    if (k) record(th, A_SW, frame, pt, c[k]->id);
    return c[k];
  }
}
static NOFP void switch_to(Thr *t, Thr *n) {
  if (n == t) return;
  shm->fired[F_SW]++; hashin(0x5157000000000000ull ^ ((u64)t->id << 40) ^ ((u64)n->id << 32) ^ (t->cur ? ((u64)t->cur->id << 20) ^ t->cur->pts : 0));
  t->consec = 0; give_go(n); wait_go(t);
}
static void all_dead(); extern bool g_trace;
static bool left_threads() { bool l = false; for (int i = 0; i < G.nth; i++) { Thr *t = &G.th[i]; if (t->st == T_DONE) continue; if (!t->dyn) return false; l = true; } return l; }
static NOFP void block(Thr *t) { // t->st says why
  t->blk++; Frame *f = t->cur;
  Thr *n = pick(t, t->id, (f ? f->id : 0) | 0x80000000u, t->blk);
  if (!n) all_dead();
  if (n != t) switch_to(t, n);
  t->st = T_READY;
}
static void all_dead() {
  if (g_trace && left_threads()) fail(V_TRACE, "a thread the library started is still there after the calls");
  char b[300]; int k = 0; for (int i = 0; i < G.nth; i++) k += snprintf(b + k, sizeof b - k > 0 ? sizeof b - k : 0, " t%d:%s", i, G.th[i].st == T_FUTEX ? "waiting" : G.th[i].st == T_JOIN ? "joining" : G.th[i].st == T_DONE ? "done" : G.th[i].st == T_CRASHED ? "stopped" : "ready");
  fail(V_DEADLOCK, "no caller can run:%s", b);
}
static bool others_alive(Thr *t) { for (int i = 0; i < G.nth; i++) if (&G.th[i] != t && G.th[i].st != T_DONE && G.th[i].st != T_CRASHED) return true; return false; }

static void run_frame(Thr *t, int opi, int ctx);
static void run_seq(Thr *t, int si, int ctx) { if (si < 0 || si >= (int)G.p->seqs.size()) return; for (int o : G.p->seqs[si]) run_frame(t, o, ctx); }

static void do_crash(Thr *t) {
  if (!others_alive(t)) return;
  t->st = T_CRASHED; shm->fired[F_CRASH]++; hashin(0xC4A50000 + t->id);
  Thr *n = pick(t, t->id, 0xC0000000u, 0); if (!n) all_dead();
  give_go(n); for (;;) raw(SYS_pause);
}
static void arm_timers(int cpu_s, int wall_s) {
  struct itimerval iv = {}; iv.it_value.tv_sec = cpu_s; setitimer(ITIMER_PROF, &iv, nullptr); alarm(wall_s);
}
static int g_cpu_s = 5, g_wall_s = 120;
static void *tmain(void *);
static void do_fork(Thr *t, int si) {
  shm->fired[F_FORK]++; hashin(0xF04B);
  int pid = fork();
  if (pid == 0) {
    arm_timers(g_cpu_s, g_wall_s); G.inchild = true; G.forks++; t->frameSeq += 100000; t->pth = pthread_self();
    for (int i = 0; i < G.nth; i++) if (&G.th[i] != t) { G.th[i].st = T_CRASHED; G.th[i].dyn = false; }
    bool newthread = si >= 0 && si < (int)G.p->seqs.size() && (si & 1);
    if (newthread && G.nth < MAXT) { // the child's first call comes from a new thread
      static ThreadSpec ts; ts.ops = G.p->seqs[si]; Thr *n = &G.th[G.nth]; *n = Thr(); n->id = G.nth++; n->spec = &ts; n->st = T_READY; n->frameSeq = 200000;
      t->st = T_JOIN; t->jointgt = n->id; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 << 10);
      int wl = in_lib, ws = in_sim; in_lib = 0; pthread_create(&n->pth, &a, tmain, n); in_lib = wl; in_sim = ws;
      block(t);
    }
    run_seq(t, si, C_CHILD);
    raw(SYS_exit_group, 0);
  }
  if (pid < 0) fail(V_LOST, "fork failed");
  int st = 0; while (raw(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
  if (WIFSIGNALED(st)) fail(g_small && WTERMSIG(st) == SIGSEGV ? V_STACK : WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM ? V_HANG : V_CRASH, "forked child ended by signal %d", WTERMSIG(st));
  if (WEXITSTATUS(st) == 98 || WEXITSTATUS(st) == 99) raw(SYS_exit_group, WEXITSTATUS(st));
  if (WEXITSTATUS(st) != 0) { if (!shm->vclass) fail(V_EXIT, "forked child exited with status %d", WEXITSTATUS(st)); raw(SYS_exit_group, 4); }
}
static void do_int(Thr *t, int si) {
  if (t->depth >= 20) return;
  shm->fired[F_INT]++; hashin(0x1147 + si); t->depth++;
  int wl = in_lib; u32 mx = _mm_getcsr(); u16 cw; asm volatile("fnstcw %0" : "=m"(cw));
  in_lib = 0; in_sim = 0; run_seq(t, si, G.inchild ? C_CHILD : C_NEST);
  in_sim = 1; in_lib = wl; _mm_setcsr(mx); asm volatile("fldcw %0" ::"m"(cw)); t->depth--;
}
// leave the call for good, as a handler does that jumps back to its host; arg: how many interrupted calls of the thread are left with it
static void do_abandon(Thr *t, int up) {
  Frame *f = t->cur; if (!f || !f->jok) return;
  for (; up > 0 && f->prev && f->prev->jok && f->prev != &t->exitf; up--) f = f->prev;
  shm->fired[F_ABANDON]++; hashin(0xABA0 + f->id); t->cur = f; longjmp(f->jb, 1);
}
static NOFP void advance_dec(Thr *t, Frame *f) {
  while (f->di < G.ndec && G.dec[f->di].th == t->id && G.dec[f->di].frame == f->id && (G.dec[f->di].act > A_ABANDON || G.dec[f->di].pt < f->pts)) f->di++;
  f->nextPt = (f->di < G.ndec && G.dec[f->di].th == t->id && G.dec[f->di].frame == f->id) ? G.dec[f->di].pt : 0xffffffffu;
}
// one scheduling point. kind: 0 boundary, 1 function entry/exit or instruction, 2 shared access, 3 yield
static NOFP __attribute__((noinline)) void point_slow(Thr *t, Frame *f, int kind) {
  while (f->nextPt == f->pts) { // decisions of the plan
    const Dec d = G.dec[f->di]; f->di++; u32 pts = f->pts; advance_dec(t, f);
    record(d.th, d.act, d.frame, d.pt, d.arg);
    if (d.act == A_SW) { if (d.arg >= 0 && d.arg < G.nth && &G.th[d.arg] != t && runnable(&G.th[d.arg])) switch_to(t, &G.th[d.arg]); }
    else if (d.act == A_CRASH) do_crash(t);
    else if (d.act == A_INT) do_int(t, d.arg);
    else if (d.act == A_FORK && !G.inchild) do_fork(t, d.arg);
    else if (d.act == A_ABANDON) do_abandon(t, d.arg);
    (void)pts;
  }
  const Policy &q = G.p->pol; Thr *n = nullptr; u64 now = shm->points;
  auto any = [&](bool rnd) -> Thr * { Thr *c[MAXT]; int k = 0; for (int i = 1; i < G.nth; i++) { Thr *x = &G.th[(t->id + i) % G.nth]; if (runnable(x)) c[k++] = x; } return k ? c[rnd ? G.rng.below(k) : 0] : nullptr; };
  if (q.type == P_RANDOM) {
    bool go = false;
    if (kind == 1) { if (now >= G.nextEvt) { go = G.nextEvt != 0; G.nextEvt = q.pf ? now + 1 + G.rng.below(131072 / q.pf + 1) : ~0ull; } }
    else { u32 pr = kind >= 2 ? q.ps : 16384; go = pr && G.rng.below(65536) < pr; }
    if (go) n = any(true);
  } else if (q.type == P_LOCKSTEP) { if (kind != 1) n = any(false); else if (now >= G.nextEvt) { G.nextEvt = q.k ? now + q.k : ~0ull; n = any(false); } }
  else if (q.type == P_PCT) {
    if (G.ipct < G.npct && now >= G.pctpt[G.ipct]) { G.ipct++; t->prio = G.lowprio--; }
    G.nextEvt = G.ipct < G.npct ? G.pctpt[G.ipct] : ~0ull;
    Thr *b = t; for (int i = 0; i < G.nth; i++) if (runnable(&G.th[i]) && G.th[i].prio > b->prio) b = &G.th[i]; if (b != t) n = b; }
  bool forced = false;
  if (!n && kind >= 2 && (t->consec > 300 || kind == 3)) { for (int i = 1; i < G.nth; i++) { Thr *c = &G.th[(t->id + i) % G.nth]; if (runnable(c)) { n = c; forced = true; break; } } t->consec = 0; if (q.type == P_PCT) t->prio = G.lowprio--; }
  if (n) { if (!forced) record(t->id, A_SW, f->id, f->pts, n->id); switch_to(t, n); }
}
static NOFP inline void point(int kind) {
  Thr *t = self; Frame *f = t->cur; if (!f) return;
  f->pts++; shm->points++;
  if (kind >= 2) { f->shr++; shm->shpoints++; t->consec++; if (shm->nsh < (u32)MAXSH) { shm->shpt[shm->nsh] = f->pts; shm->nsh = shm->nsh + 1; } }
  if (shm->points > G.budget) fail(V_BUDGET, "thread %d frame %u: more than %llu points in the run", t->id, f->id, (unsigned long long)G.budget);
  if (f->nextPt <= f->pts || shm->points >= G.nextEvt || kind >= 2) { if (f->nextPt < f->pts) advance_dec(t, f); point_slow(t, f, kind); }
}

// ---------------------------------------------------------------- race detection (vector clocks)
struct Shadow { u64 key; u32 wc; u8 wt, wm; u8 rm[MAXT]; u32 rc[MAXT]; };
struct SyncLoc { u64 key; u64 last; bool known; u32 vc[MAXT]; };
static const int NSHADOW = 1 << 14, NSYNC = 1 << 10;
static Shadow shadow_[NSHADOW]; static SyncLoc sync_[NSYNC]; static int nshadow, nsync;
static NOFP Shadow *sh_get(u64 g, bool mk) { u64 h = (g * 0x9E3779B97F4A7C15ull) >> 40; for (int i = 0; i < 64; i++) { Shadow *s = &shadow_[(h + i) & (NSHADOW - 1)]; if (s->key == g) return s; if (!s->key) { if (!mk || nshadow > NSHADOW / 2) return nullptr; nshadow++; s->key = g; return s; } } return nullptr; }
static NOFP SyncLoc *sy_get(u64 g) { u64 h = (g * 0x9E3779B97F4A7C15ull) >> 40; for (int i = 0; i < NSYNC; i++) { SyncLoc *s = &sync_[(h + i) & (NSYNC - 1)]; if (s->key == g) return s; if (!s->key) { if (nsync > NSYNC / 2) return nullptr; nsync++; s->key = g; return s; } } return nullptr; }
static NOFP void joinv(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static NOFP void acquire_all(Thr *t) { for (int i = 0; i < G.nth; i++) joinv(t->vc, G.th[i].vc); for (int i = 0; i < G.nth; i++) if (i != t->id && G.th[i].vc[i] >= t->vc[i]) G.th[i].vc[i]++; }
static NOFP void race(Thr *t, u64 a, int o, bool w, bool ow) { fail(V_RACE, "data race: %s by thread %d conflicts with %s by thread %d (address %llx)", w ? "write" : "read", t->id, ow ? "write" : "read", o, (unsigned long long)a); }
static NOFP void access(Thr *t, u64 a, u32 sz, bool w) {
  if (!G.p->races || G.nth < 2) return;
  while (sz) {
    u32 off = a & 7, n = 8 - off; if (n > sz) n = sz; u8 m = (u8)(((1u << n) - 1) << off);
    Shadow *s = sh_get((a >> 3) | (1ull << 62), true);
    if (s) {
      if ((s->wm & m) && s->wt != t->id && s->wc > t->vc[s->wt]) race(t, a, s->wt, w, true);
      if (w) { for (int i = 0; i < G.nth; i++) if (i != t->id && (s->rm[i] & m) && s->rc[i] > t->vc[i]) race(t, a, i, true, false); s->wm = m | (s->wt == t->id ? s->wm : 0); s->wt = t->id; s->wc = t->vc[t->id]; }
      else { s->rm[t->id] = m | (s->rc[t->id] == t->vc[t->id] ? s->rm[t->id] : 0); s->rc[t->id] = t->vc[t->id]; }
    }
    a += n; sz -= n;
  }
}
static NOFP void forget(u64 a, u64 sz) { if (!G.p || !G.p->races || sz > (1 << 16)) return; for (u64 g = a >> 3; g <= (a + sz - 1) >> 3; g++) if (Shadow *s = sh_get(g | (1ull << 62), false)) { s->wm = 0; memset(s->rm, 0, sizeof s->rm); } }
// mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static NOFP void at_load(Thr *t, u64 a, u64 val, int mo) { if (!G.p->races) return; SyncLoc *s = sy_get(a); if (!s) { acquire_all(t); return; } if (!s->known || s->last != val) { acquire_all(t); joinv(s->vc, t->vc); s->known = true; s->last = val; return; } if (mo == 1 || mo == 2 || mo >= 4) joinv(t->vc, s->vc); }
static NOFP void at_store(Thr *t, u64 a, u64 val, int mo, bool rmw) {
  if (!G.p->races) return; SyncLoc *s = sy_get(a); if (!s) return;
  if (!rmw) { memset(s->vc, 0, sizeof s->vc); }
  if (mo >= 3) { joinv(s->vc, t->vc); t->vc[t->id]++; } else if (t->hasrelf) joinv(s->vc, t->relf);
  s->known = true; s->last = val;
}

// ---------------------------------------------------------------- compiler hooks
static NOFP inline bool interesting(Thr *t, u64 a, bool w) {
  if ((a >= t->lo && a < t->hi) || (a >= t->lo2 && a < t->hi2)) return false;
  if (!w) for (int i = 0; i < nRO; i++) if (a >= RO[i].a && a < RO[i].b) return false;
  return true;
}
#define HOOK NOFP inline __attribute__((always_inline))
static bool g_probe; static u64 g_mask[4]; // probing: which code sites of a call touch memory that outlives the call
static HOOK void mark(u64 pc) { u64 h = (pc * 0x9E3779B97F4A7C15ull) >> 56; if (h >= 248) h -= 64; g_mask[h >> 6] |= 1ull << (h & 63); }
static HOOK void mem(const void *p, u32 sz, bool w) {
  if (!LIB()) return; Thr *t = self; if (!interesting(t, (u64)p, w)) return;
  if (g_probe) { mark((u64)__builtin_return_address(0)); return; }
  Sim s; point(2); access(t, (u64)p, sz, w);
}
extern "C" {
#define RW(N) NOFP void __tsan_read##N(void *p) { mem(p, N, false); } NOFP void __tsan_write##N(void *p) { mem(p, N, true); } \
  NOFP void __tsan_unaligned_read##N(void *p) { mem(p, N, false); } NOFP void __tsan_unaligned_write##N(void *p) { mem(p, N, true); } \
  NOFP void __tsan_read_write##N(void *p) { mem(p, N, true); } NOFP void __tsan_unaligned_read_write##N(void *p) { mem(p, N, true); } \
  NOFP void __tsan_volatile_read##N(void *p) { mem(p, N, false); } NOFP void __tsan_volatile_write##N(void *p) { mem(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
NOFP void __tsan_read_range(void *p, u64 n) { if (n) mem(p, n > 4096 ? 4096 : (u32)n, false); }
NOFP void __tsan_write_range(void *p, u64 n) { if (n) mem(p, n > 4096 ? 4096 : (u32)n, true); }
NOFP void __tsan_func_entry(void *) { if (LIB()) { Sim s; point(1); } }
NOFP void __tsan_func_exit() { if (LIB()) { Sim s; point(1); } }
void __tsan_init() {}
NOFP void __tsan_vptr_update(void **, void *) {}
NOFP void __tsan_vptr_read(void **) {}
NOFP void __tsan_ignore_thread_begin() {}
NOFP void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, u64 n) { if (n) { mem(s, n > 4096 ? 4096 : (u32)n, false); mem(d, n > 4096 ? 4096 : (u32)n, true); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, u64 n) { if (n) { mem(s, n > 4096 ? 4096 : (u32)n, false); mem(d, n > 4096 ? 4096 : (u32)n, true); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, u64 n) { if (n) mem(d, n > 4096 ? 4096 : (u32)n, true); return memset(d, c, n); }
static HOOK Thr *at_pre(const volatile void *a) { if (!LIB()) return nullptr; Thr *t = self; if (!interesting(t, (u64)a, true)) return nullptr; if (g_probe) { mark((u64)__builtin_return_address(0)); return nullptr; } Sim s; point(2); return t; }
#define ATOM(N, T) \
  NOFP T __tsan_atomic##N##_load(const volatile T *a, int mo) { Thr *t = at_pre(a); T v = __atomic_load_n(a, 5); if (t) { Sim s; at_load(t, (u64)a, v, mo); } return v; } \
  NOFP void __tsan_atomic##N##_store(volatile T *a, T v, int mo) { Thr *t = at_pre(a); __atomic_store_n(a, v, 5); if (t) { Sim s; at_store(t, (u64)a, v, mo, false); } } \
  NOFP T __tsan_atomic##N##_exchange(volatile T *a, T v, int mo) { Thr *t = at_pre(a); T o = __atomic_exchange_n(a, v, 5); if (t) { Sim s; at_load(t, (u64)a, o, mo == 3 ? 0 : mo); at_store(t, (u64)a, v, mo, true); } return o; } \
  NOFP int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { Thr *t = at_pre(a); T e = *c; int ok = __atomic_compare_exchange_n(a, c, v, false, 5, 5); if (t) { Sim s; at_load(t, (u64)a, ok ? e : *c, ok ? (mo == 3 ? 0 : mo) : fmo); if (ok) at_store(t, (u64)a, v, mo, true); } return ok; } \
  NOFP int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(a, c, v, mo, fmo); } \
  NOFP T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##N##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
#define FOP(N, T, NAME, BI, EXPR) NOFP T __tsan_atomic##N##_fetch_##NAME(volatile T *a, T v, int mo) { Thr *t = at_pre(a); T o = BI(a, v, 5); if (t) { Sim s; at_load(t, (u64)a, o, mo == 3 ? 0 : mo); at_store(t, (u64)a, (T)(EXPR), mo, true); } return o; }
#define FOPS(N, T) FOP(N, T, add, __atomic_fetch_add, o + v) FOP(N, T, sub, __atomic_fetch_sub, o - v) FOP(N, T, and, __atomic_fetch_and, o & v) FOP(N, T, or, __atomic_fetch_or, o | v) FOP(N, T, xor, __atomic_fetch_xor, o ^ v) FOP(N, T, nand, __atomic_fetch_nand, ~(o & v))
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64) FOPS(8, u8) FOPS(16, u16) FOPS(32, u32) FOPS(64, u64)
NOFP void __tsan_atomic_thread_fence(int mo) { if (!LIB()) return; Thr *t = self; Sim s; point(2); if (!G.p->races) return; if (mo == 1 || mo == 2 || mo >= 4) acquire_all(t); if (mo >= 3) { memcpy(t->relf, t->vc, sizeof t->relf); t->hasrelf = true; t->vc[t->id]++; } }
NOFP void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- faults
static u32 sys_errs[] = {EINTR, ENOMEM, EIO, EAGAIN, ENOSYS, EPERM, EMFILE, ENOENT, EINVAL, ENOSPC};
// does occurrence `idx` of `act` in the current frame fail? 0: no
static int fault(int act, u32 idx, u32 prob, int fixed) {
  Thr *t = self; Frame *f = t->cur; if (!f || f == &t->exitf) return 0;
  if (const Dec *d = find(t->id, act, f->id, idx)) { record(d->th, d->act, d->frame, d->pt, d->arg); return d->arg; }
  if (prob && G.rng.below(65536) < prob) { int a = fixed ? fixed : (int)sys_errs[G.rng.below(10)]; record(t->id, act, f->id, idx, a); return a; }
  return 0;
}
static bool alloc_fails() { if (!LIB()) return false; SimK s; Frame *f = self->cur; if (!f) return false; f->allocs++; int r = fault(A_ALLOC, f->allocs, G.p->pol.palloc, 1); if (!r && G.p->conf.alloc && f != &self->exitf) r = 1; if (r) { shm->fired[F_ALLOC]++; hashin(0xA110C); errno = ENOMEM; } return r != 0; }
static int sys_fails() { Frame *f = self->cur; if (!f) return 0; f->sysc++; int r = fault(A_SYS, f->sysc, G.p->pol.psys, 0); if (!r && G.p->conf.sys && f != &self->exitf) r = (int)sys_errs[(G.p->conf.sys + f->sysc) % 10]; if (r) { shm->fired[F_SYS]++; hashin(0x5F5 + r); } return r; }
// what the library takes and does not give back
bool g_trace; int g_memfd = -1; static __thread volatile int in_acct; static char g_tracemsg[300];
struct Blk { u64 p; u32 n; }; static const u32 NBLK = 1 << 20; static Blk *g_blk; static u32 nblk; static volatile u64 g_kept; static volatile int g_blkl;
static NOFP bool ACCT() { return g_trace && !in_sim && (in_acct || (self && in_lib)); }
static void keep_add(void *p, u64 n) { int w = in_sim; in_sim = 1; while (__atomic_exchange_n(&g_blkl, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield); if (!g_blk) g_blk = (Blk *)mmap(nullptr, NBLK * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (nblk < NBLK * 3 / 4) { u32 h = (u32)(((u64)p * 0x9E3779B97F4A7C15ull) >> 44); while (g_blk[h & (NBLK - 1)].p > 1) h++; Blk &b = g_blk[h & (NBLK - 1)]; if (b.p != 1) nblk++; b = {(u64)p, (u32)n}; } g_kept = g_kept + n; __atomic_store_n(&g_blkl, 0, __ATOMIC_RELEASE); in_sim = w; }
static void keep_del(void *p) { if (!nblk) return; int w = in_sim; in_sim = 1; while (__atomic_exchange_n(&g_blkl, 1, __ATOMIC_ACQUIRE)) raw(SYS_sched_yield); u32 h = (u32)(((u64)p * 0x9E3779B97F4A7C15ull) >> 44); for (; g_blk[h & (NBLK - 1)].p; h++) if (g_blk[h & (NBLK - 1)].p == (u64)p) { g_kept = g_kept - g_blk[h & (NBLK - 1)].n; g_blk[h & (NBLK - 1)].p = 1; break; } __atomic_store_n(&g_blkl, 0, __ATOMIC_RELEASE); in_sim = w; }
u64 rt_kept() { return g_kept; }
bool rt_trace_said() { return g_tracemsg[0]; }
static void trace(const char *fmt, ...) { if (!g_trace || g_tracemsg[0]) return; va_list a; va_start(a, fmt); vsnprintf(g_tracemsg, sizeof g_tracemsg, fmt, a); va_end(a); }
extern "C" {
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *); size_t malloc_usable_size(void *);
void *malloc(size_t n) { if (alloc_fails()) return nullptr; void *p = __libc_malloc(n); if (p && ACCT()) keep_add(p, n + 16); if (p && LIB()) { SimK s; forget((u64)p, n); } return p; }
void *calloc(size_t a, size_t b) { if (alloc_fails()) return nullptr; void *p = __libc_calloc(a, b); if (p && ACCT()) keep_add(p, a * b + 16); if (p && LIB()) { SimK s; forget((u64)p, a * b); } return p; }
void *realloc(void *q, size_t n) { if (alloc_fails()) return nullptr; void *p = __libc_realloc(q, n); if (p && q) keep_del(q); if (p && ACCT()) keep_add(p, n + 16); if (p && LIB()) { SimK s; forget((u64)p, n); } return p; }
void *memalign(size_t a, size_t n) { if (alloc_fails()) return nullptr; void *p = __libc_memalign(a, n); if (p && ACCT()) keep_add(p, n + 16); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **o, size_t a, size_t n) { if (alloc_fails()) return ENOMEM; void *p = __libc_memalign(a, n); if (!p) return ENOMEM; *o = p; if (ACCT()) keep_add(p, n + 16); if (LIB()) { SimK s; forget((u64)p, n); } return 0; }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) noexcept { long r = rawe(SYS_mmap, (long)a, n, pr, fl, fd, o); if (r != -1 && ACCT()) keep_add((void *)r, n); return (void *)r; }
int munmap(void *a, size_t n) noexcept { if (nblk) keep_del(a); return (int)rawe(SYS_munmap, (long)a, n); }
void free(void *p) { if (p && nblk) keep_del(p); if (p && LIB()) { SimK s; forget((u64)p, malloc_usable_size(p)); } __libc_free(p); }
}

// ---------------------------------------------------------------- virtual kernel
static u64 vnow() { G.vt += 1000; Frame *f = self ? self->cur : nullptr; if (f) { f->sysc++; int r = fault(A_CLOCK, f->sysc, G.p->pol.pclock, 0); if (r) { static const i64 J[] = {0, 1000, -1000, 3600000, -3600000, 86400000ll * 365, -86400000ll * 365 * 60, 1, -1, 10000}; i64 ms = J[(u32)r % 10]; G.vt += (u64)(ms * 1000000); shm->fired[F_CLOCK]++; hashin(0xC10C + r); } } return G.vt; }
static long k_futex_wait(u32 *a, u32 val, u64 deadline) {
  Thr *t = self; shm->fired[F_FUTEXWAIT]++; if (t->cur) { t->cur->pts++; shm->points++; if (shm->points > G.budget) fail(V_BUDGET, "waiting for ever"); }
  if (*(volatile u32 *)a != val) { acquire_all(t); return -EAGAIN; }
  t->st = T_FUTEX; t->faddr = a; t->deadline = deadline; t->woken = false; t->timedout = false;
  block(t); t->deadline = 0; joinv(t->vc, G.fvc); acquire_all(t);
  return t->timedout ? -ETIMEDOUT : 0;
}
static long k_futex_wake(u32 *a, int n) { Thr *t = self; joinv(G.fvc, t->vc); t->vc[t->id]++; int k = 0; for (int i = 0; i < G.nth && k < n; i++) { Thr *w = &G.th[i]; if (w->st == T_FUTEX && !w->woken && w->faddr == a) { w->woken = true; k++; } } if (t->cur) point(2); return k; }
static u64 ts_ns(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; }
static void k_yield() { if (!self->cur) return; shm->fired[F_YIELD]++; self->consec = 0; point(3); }
static void k_sleep(u64 ns) { Thr *t = self; static u32 dummy; t->st = T_FUTEX; t->faddr = &dummy; t->deadline = G.vt + ns + 1; t->woken = false; t->timedout = false; block(t); t->deadline = 0; }
static u64 kbase(int clk) { return clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE ? (u64)G.p->conf.vt0 * 1000000000ull : 1000000000000ull + (u64)G.p->conf.vt0; }
static void fill_random(void *b, size_t n) { shm->fired[F_RND]++; for (size_t i = 0; i < n; i++) ((u8 *)b)[i] = (u8)mix(G.p->conf.rnd, G.rndc++); }
#define KFAIL(RV) { int e_ = sys_fails(); if (e_) { errno = e_; return RV; } }
template <class T> static T real(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
extern "C" {
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  if (!LIB()) return rawe(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  SimK s;
  if (n == SYS_futex) {
    int op = (int)a[1] & 127; long r = -ENOSYS;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) { u64 dl = 0; if (a[3]) { u64 v = ts_ns((struct timespec *)a[3]); if (op == FUTEX_WAIT) dl = G.vt + v + 1; else { u64 b = kbase(a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC); dl = v > b ? v - b : 1; } } if (sys_fails() && self->eintr++ < 8) r = self->eintr & 1 ? -EINTR : 0; /* 0: a spurious wake-up */ else r = k_futex_wait((u32 *)a[0], (u32)a[2], dl); }
    else if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) r = k_futex_wake((u32 *)a[0], (int)a[2]);
    if (r < 0) { errno = (int)-r; return -1; } return r;
  }
  KFAIL(-1);
  if (n == SYS_getrandom) { fill_random((void *)a[0], a[1]); return a[1]; }
  return rawe(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!LIB()) return (int)rawe(SYS_clock_gettime, c, (long)ts);
  SimK s; u64 v = kbase(c) + vnow(); KFAIL(-1); ts->tv_sec = (i64)v / 1000000000ll; ts->tv_nsec = (i64)v % 1000000000ll; if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000ll; ts->tv_sec--; } return 0;
}
int gettimeofday(struct timeval *tv, void *) noexcept { if (!LIB()) return (int)rawe(SYS_gettimeofday, (long)tv, 0); SimK s; u64 v = kbase(CLOCK_REALTIME) + vnow(); tv->tv_sec = v / 1000000000ull; tv->tv_usec = v / 1000 % 1000000; return 0; }
time_t time(time_t *o) noexcept { if (!LIB()) { time_t t = rawe(SYS_time, 0); if (o) *o = t; return t; } SimK s; time_t t = (time_t)((kbase(CLOCK_REALTIME) + vnow()) / 1000000000ull); if (o) *o = t; return t; }
int nanosleep(const struct timespec *r, struct timespec *m) { if (!LIB()) return (int)rawe(SYS_nanosleep, (long)r, (long)m); SimK s; if (sys_fails()) { if (m) *m = {}; errno = EINTR; return -1; } k_sleep(ts_ns(r)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *m) { if (!LIB()) return (int)-raw(SYS_clock_nanosleep, c, fl, (long)r, (long)m); SimK s; u64 v = ts_ns(r), b = kbase(c) + G.vt; k_sleep(fl ? (v > b ? v - b : 1) : v); return 0; }
int usleep(useconds_t us) { if (!LIB()) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); } SimK s; k_sleep(us * 1000ull); return 0; }
int sched_yield() noexcept { if (!LIB()) return (int)rawe(SYS_sched_yield); SimK s; k_yield(); return 0; }
ssize_t getrandom(void *b, size_t n, unsigned fl) { if (!LIB()) return rawe(SYS_getrandom, (long)b, n, fl); SimK s; KFAIL(-1); fill_random(b, n); return n; }
char *getenv(const char *k) noexcept {
  if (LIB()) { SimK s; self->cur ? self->cur->sysc++ : 0; static char v1[] = "1", v2[] = "\xff\xfe", v3[] = "", v4[] = "999999999999999999999", v5[] = "off"; shm->fired[F_ENV]++; hashin(0xE4F + G.p->conf.env);
    switch (G.p->conf.env) { case 1: return nullptr; case 2: return v1; case 3: return v2; case 4: return v3; case 5: return v4; case 6: return v5; } }
  size_t n = strlen(k); for (char **e = environ; e && *e; e++) if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1; return nullptr;
}
#define WR(fl) (((fl)&O_ACCMODE) != O_RDONLY || ((fl)&O_CREAT))
static int k_open(long dfd, const char *p, int fl, int md) { if (WR(fl) && ACCT() && strcmp(p, "/dev/null")) { trace("opened %s for writing", p); if (!LIB()) { errno = EROFS; return -1; } } if (!LIB()) return (int)rawe(SYS_openat, dfd, (long)p, fl, md); SimK s; KFAIL(-1); if (WR(fl) && strcmp(p, "/dev/null")) { errno = EROFS; return -1; } return (int)rawe(SYS_openat, dfd, (long)p, fl, md); }
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); return k_open(AT_FDCWD, p, fl, md); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); return k_open(AT_FDCWD, p, fl | O_LARGEFILE, md); }
int openat(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); return k_open(d, p, fl, md); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); return k_open(d, p, fl | O_LARGEFILE, md); }
ssize_t read(int fd, void *b, size_t n) { if (!LIB()) return rawe(SYS_read, fd, (long)b, n); SimK s; KFAIL(-1); if (fd == 0) return 0; return rawe(SYS_read, fd, (long)b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (ACCT()) { trace("wrote %zu bytes to descriptor %d: %.*s", n, fd, (int)(n < 120 ? n : 120), (const char *)b); if (!LIB()) return n; } if (!LIB()) return rawe(SYS_write, fd, (long)b, n); SimK s; KFAIL(-1); return n; }
ssize_t writev(int fd, const struct iovec *v, int c) { if (ACCT()) trace("wrote to descriptor %d", fd); if (!LIB()) return rawe(SYS_writev, fd, (long)v, c); SimK s; KFAIL(-1); ssize_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len; return n; }
int close(int fd) { if (!LIB()) return (int)rawe(SYS_close, fd); SimK s; if (fd <= 2) return 0; return (int)rawe(SYS_close, fd); }
int statx(int d, const char *__restrict p, int fl, unsigned m, struct statx *__restrict o) noexcept { if (!LIB()) return (int)rawe(SYS_statx, d, (long)p, fl, m, (long)o); SimK s; KFAIL(-1); return (int)rawe(SYS_statx, d, (long)p, fl, m, (long)o); }
int stat64(const char *__restrict p, struct stat64 *__restrict o) noexcept { if (!LIB()) return (int)rawe(SYS_stat, (long)p, (long)o); SimK s; KFAIL(-1); return (int)rawe(SYS_stat, (long)p, (long)o); }
int fstat64(int fd, struct stat64 *o) noexcept { if (!LIB()) return (int)rawe(SYS_fstat, fd, (long)o); SimK s; KFAIL(-1); return (int)rawe(SYS_fstat, fd, (long)o); }
int access(const char *p, int m) noexcept { if (!LIB()) return (int)rawe(SYS_access, (long)p, m); SimK s; KFAIL(-1); return (int)rawe(SYS_access, (long)p, m); }
int poll(struct pollfd *p, nfds_t n, int to) { if (!LIB()) return (int)rawe(SYS_poll, (long)p, n, to); SimK s; KFAIL(-1); return (int)rawe(SYS_poll, (long)p, n, 0); }
pid_t getpid() noexcept { return (pid_t)raw(SYS_getpid); }
static int k_ncpu() { static const int N[] = {8, 1, 2, 3, 128, 1024, 64, 7}; shm->fired[F_NCPU]++; hashin(0xCC + G.p->conf.ncpu); return N[G.p->conf.ncpu & 7]; }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *m) noexcept { if (!LIB()) { long r = rawe(SYS_sched_getaffinity, p, n, (long)m); if (r < 0) return -1; if ((size_t)r < n) memset((char *)m + r, 0, n - r); return 0; } SimK s; KFAIL(-1); memset(m, 0, n); int c = k_ncpu(); for (int i = 0; i < c && i < (int)n * 8; i++) ((u8 *)m)[i / 8] |= 1 << (i % 8); return 0; }
long sysconf(int k) noexcept { static long (*r)(int); if (!r) r = real<long (*)(int)>("sysconf"); if (LIB() && (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF)) { SimK s; KFAIL(-1); return k_ncpu(); } return r(k); }
int pthread_create(pthread_t *o, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  static int (*r)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); if (!r) r = real<decltype(r)>("pthread_create");
  if (!LIB()) return r(o, a, fn, arg);
  SimK s; int e = sys_fails(); int slot = G.nth; u32 c0 = 0; for (int i = 0; i < G.nth; i++) if (G.th[i].joined) { slot = i; c0 = G.th[i].vc[i]; }
  if (e || slot >= MAXT) return EAGAIN;
  shm->fired[F_SPAWN]++; Thr *n = &G.th[slot]; *n = Thr(); n->id = slot; n->st = T_DONE; n->dyn = true; n->start = fn; n->arg = arg; n->st = T_READY; n->prio = (u32)(G.rng.next() >> 33) | 0x1000000;
  memcpy(n->vc, self->vc, sizeof n->vc); n->vc[n->id] = c0 + 1; self->vc[self->id]++;
  int rc = r(&n->pth, a, tmain, n); if (rc) { n->st = T_DONE; return rc; } *o = n->pth; if (slot == G.nth) G.nth++; point(2); return 0;
}
int __cxa_atexit(void (*f)(void *), void *a, void *d) noexcept { static int (*r)(void (*)(void *), void *, void *); if (!r) r = real<decltype(r)>("__cxa_atexit"); if (ACCT()) trace("registered a process-exit handler"); return r(f, a, d); }
int pthread_join(pthread_t p, void **ret) {
  static int (*r)(pthread_t, void **); if (!r) r = real<decltype(r)>("pthread_join");
  if (!LIB()) return r(p, ret);
  SimK s; for (int i = 0; i < G.nth; i++) if (G.th[i].dyn && G.th[i].id == i && pthread_equal(G.th[i].pth, p)) { if (G.th[i].st != T_DONE) { self->st = T_JOIN; self->jointgt = i; block(self); } joinv(self->vc, G.th[i].vc); G.th[i].dyn = false; int rc = r(p, ret); G.th[i].joined = true; return rc; }
  return r(p, ret);
}
}
// instructions with outside answers inside the library, patched to ud2
static int xlate(u64 rip) { for (int i = 0; i < nPATCH; i++) if (PATCH[i].addr == rip) return i; return -1; }
static void on_ill(int, siginfo_t *, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_; greg_t *g = uc->uc_mcontext.gregs; int k = xlate(g[REG_RIP]);
  if (k < 0) { signal(SIGILL, SIG_DFL); return; }
  int wl = in_sim; in_sim = 1; char ss = sud_sel; sud_sel = 0;
  int kind = PATCH[k].kind & 255, cpu = G.p ? G.p->conf.cpu : 0;
  if (kind == 1) {
    u32 l = (u32)g[REG_RAX], a, b, c, d; __cpuid_count(l, (u32)g[REG_RCX], a, b, c, d);
    if (shm) shm->fired[F_CPUID]++;
    if (cpu) { if (l == 1) { c &= ~((1u << 12) | (1u << 27) | (1u << 28) | (1u << 29) | (1u << 30)); if (cpu == 1) c &= ~((1u << 19) | (1u << 20) | (1u << 23) | 1u | (1u << 9)); } if (l == 7) { b &= ~((1u << 5) | (1u << 3) | (1u << 8) | 0xDC230000u); c = 0; d = 0; } if (cpu == 3 && l == 0) { b = 0x68747541; d = 0x69746e65; c = 0x444d4163; } }
    g[REG_RAX] = a; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d;
  } else if (kind == 2 || kind == 3) { if (shm) shm->fired[F_TSC]++; u64 v = (self && G.p ? vnow() : 1000) * 3; g[REG_RAX] = (u32)v; g[REG_RDX] = v >> 32; if (kind == 3) g[REG_RCX] = 0; }
  else if (kind == 4) { static const int M[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI, REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15}; if (shm) shm->fired[F_RND]++; g[M[(PATCH[k].kind >> 8) & 15]] = mix(G.p ? G.p->conf.rnd : 0, G.rndc++); g[REG_EFL] |= 1; }
  else if (kind == 5) { u32 a, d; asm volatile("xgetbv" : "=a"(a), "=d"(d) : "c"((u32)g[REG_RCX])); g[REG_RAX] = cpu ? (a & 3) : a; g[REG_RDX] = d; }
  g[REG_RIP] += PATCH[k].len; in_sim = wl; sud_sel = ss;
}
// single-stepping: every instruction of the shipped code is a scheduling point
static void on_trap(int, siginfo_t *, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_; greg_t *g = uc->uc_mcontext.gregs;
  if (!self || !in_lib || in_sim) return;
  Thr *t = self; Frame *f = t->cur; if (!f) return;
  in_sim = 1; f->pts++; shm->points++;
  if (!g_step_count) {
    if (shm->points > G.budget) fail(V_BUDGET, "thread %d frame %u: too many instructions", t->id, f->id);
    if (f->nextPt < f->pts) advance_dec(t, f);
    if (f->nextPt == f->pts) { int e = errno; point_slow(t, f, 1); errno = e; }
    if (f->nextPt == 0xffffffffu) g[REG_EFL] &= ~0x100ll;
  } else if (f->pts >= g_step_cap) g[REG_EFL] &= ~0x100ll;
  in_sim = 0;
}
extern "C" void sim_restorer();
asm(".p2align 12\n.globl sim_restorer\nsim_restorer:\n mov $15,%eax\n syscall\n nop\n.p2align 12\n");
static void on_sys(int, siginfo_t *si, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_; greg_t *g = uc->uc_mcontext.gregs; char ss = sud_sel; sud_sel = 0; int ws = in_sim; in_sim = 1;
  int e = self && in_lib ? sys_fails() : 0;
  if (g_trace && self && in_lib && !ws && !e) { long n = si->si_syscall; static const short W[] = {SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_sendto, SYS_sendmsg, SYS_sendfile, SYS_socket, SYS_connect, SYS_bind, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_link, SYS_linkat, SYS_symlink, SYS_symlinkat, SYS_chmod, SYS_fchmod, SYS_fchmodat, SYS_truncate, SYS_ftruncate, SYS_creat, SYS_mknod, SYS_execve, SYS_utimensat, SYS_setpriority, SYS_sched_setscheduler};
    for (short w : W) if (n == w) { trace("made system call %ld, which changes something outside the call", n); e = EPERM; } if (n == SYS_openat && WR(g[REG_RDX])) { trace("opened %s for writing", (char *)g[REG_RSI]); e = EROFS; } if (n == SYS_open && WR(g[REG_RSI])) { trace("opened %s for writing", (char *)g[REG_RDI]); e = EROFS; } }
  g[REG_RAX] = e ? -e : raw6(si->si_syscall, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
  in_sim = ws; sud_sel = ss;
}
struct ksig { void *h; unsigned long flags; void *rest; unsigned long mask; };
static void sud_arm() {
  if (!G.sud) return; sud_sel = 0;
  if (raw(SYS_prctl, 59, 1, (long)sim_restorer, 4096, (long)&sud_sel) != 0) G.sud = false;
}

// ---------------------------------------------------------------- running operations
u32 g_small; bool g_paint;
static int lib_call_(const Op &o, double *out) {
  if (o.surf == S_C) { if (o.o >= -32768 && o.o <= 32767) *out = ((cfn_s)L_c[o.fn])(b2d(o.x), b2d(o.y), (short)o.o); else *out = ((cfn_i)L_c[o.fn])(b2d(o.x), b2d(o.y), o.o); return 0; }
  return L_call(o.surf, o.fn, b2d(o.x), b2d(o.y), o.o, o.reg, out);
}
static const u64 SLICE = 512 << 10; static const int NSLICE = 24;
static __thread char *small_; static __thread u32 used_;
static char *small_region() { char *p = (char *)mmap(nullptr, SLICE * NSLICE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(99); for (int i = 0; i < NSLICE; i++) mprotect(p + SLICE * (i + 1) - g_small - 4096, g_small, PROT_READ | PROT_WRITE); return p; }
struct OnArg { const Op *o; double *out; int st; };
extern "C" __attribute__((noinline, used)) void sim_on_stack(OnArg *a) { a->st = lib_call_(*a->o, a->out); }
extern "C" void sim_switch_stack(void *top, OnArg *a);
asm(".text\n.globl sim_switch_stack\n.type sim_switch_stack,@function\nsim_switch_stack:\n.cfi_startproc\n push %rbp\n.cfi_def_cfa_offset 16\n.cfi_offset 6,-16\n mov %rsp,%rbp\n.cfi_def_cfa_register 6\n mov %rdi,%rsp\n mov %rsi,%rdi\n call sim_on_stack\n mov %rbp,%rsp\n pop %rbp\n.cfi_def_cfa 7,8\n ret\n.cfi_endproc\n.size sim_switch_stack,.-sim_switch_stack\n");
u32 rt_stack_used() { return used_; }
// a call on a stack of g_small bytes with nothing accessible below or above it
static int lib_call(const Op &o, double *out, int lvl = 0) {
  if (!g_small) return lib_call_(o, out);
  if (!small_) { small_ = small_region(); if (self) { self->lo2 = (u64)small_; self->hi2 = (u64)small_ + SLICE * NSLICE; } }
  char *top = small_ + SLICE * (lvl % NSLICE + 1) - 4096; OnArg a{&o, out, 0};
  if (g_paint) memset(top - g_small, 0x5a, g_small);
  sim_switch_stack(top - 64, &a);
  if (g_paint) { u64 *p = (u64 *)(top - g_small); u32 n = g_small / 8, i = 0; while (i < n && p[i] == 0x5a5a5a5a5a5a5a5aull) i++; used_ = g_small - i * 8; }
  return a.st;
}
int rt_call_raw(const Op &o, double *out) { if (!g_trace) return lib_call(o, out); in_acct = 1; int r = lib_call(o, out); in_acct = 0; return r; }
// call once, unscheduled, and tell what the call touched; only in forked helpers
void rt_probe(const Op &o, double *out, u64 *mask) {
  static Plan p; static Thr *t; static Frame f; char here;
  if (!t) { t = &G.th[0]; t->lo = (u64)&here - (4 << 20); t->hi = (u64)&here + (1 << 20); G.nth = 1; G.p = &p; G.budget = ~0ull; G.nextEvt = ~0ull; self = t; g_probe = true; }
  f = Frame(); f.id = 1; f.nextPt = 0xffffffffu; t->cur = &f; t->st = T_READY; memset(g_mask, 0, sizeof g_mask); u64 f0 = 0, f1 = 0; for (u64 x : shm->fired) f0 += x;
  set_lib(1); lib_call(o, out); set_lib(0);
  for (u64 x : shm->fired) f1 += x; if (f.allocs) g_mask[3] |= 1ull << 60; if (f.sysc) g_mask[3] |= 1ull << 61; if (f1 != f0) g_mask[3] |= 1ull << 62;
  memcpy(mask, g_mask, sizeof g_mask);
}
static __attribute__((noinline)) void soil(u64 s);
__attribute__((noinline)) int rt_call_at(const Op &o, u64 h, double *out) { volatile char *pad = (volatile char *)__builtin_alloca(16 + 16 * (h & 255)); *pad = 0; soil(h >> 8); return lib_call(o, out); }
static __attribute__((noinline)) void soil(u64 s) { [[maybe_unused]] volatile u64 a[1024]; if (!(s & 1)) s = s & 2 ? 0x7ff8000000000001ull : ~0ull; else s = s * 0x9E3779B97F4A7C15ull; for (int i = 0; i < 1024; i++) a[i] = s; }
static void sigstate(u64 *m) { raw(SYS_rt_sigprocmask, 0, 0, (long)&m[0], 8); stack_t st = {}; raw(SYS_sigaltstack, 0, (long)&st); m[1] = (u64)st.ss_sp ^ (u64)st.ss_size << 48; }
// the state of the process a host can see
struct SnapItem { const char *name; u64 v; };
static int snapshot(SnapItem *o) {
  int n = 0; auto put = [&](const char *k, u64 v) { o[n++] = {k, v}; }; u64 h = 0, st[4];
  for (int fd = 0; fd < 256; fd++) { long r = raw(SYS_fcntl, fd, F_GETFD); h = mix(h, (u64)r); } put("the set of open file descriptors", h);
  for (int s = 1; s < 65; s++) if (s != 32 && s != 33) { u64 sa[4] = {}; raw(SYS_rt_sigaction, s, 0, (long)sa, 8); h = 0; for (u64 x : sa) h = mix(h, x); static char nm[65][40]; snprintf(nm[s], 40, "the handling of signal %d", s); put(nm[s], h); }
  sigstate(st); put("the signal mask", st[0]); put("the alternate signal stack", st[1]);
  char b[4096]; long r = raw(SYS_getcwd, (long)b, 4096); h = 0; for (int i = 0; i < r; i++) h = mix(h, b[i]); put("the working directory", h);
  long um = raw(SYS_umask, 0); raw(SYS_umask, um); put("the file mode creation mask", um);
  h = 0; for (int i = 0; i < 16; i++) { u64 l[2] = {}; raw(SYS_prlimit64, 0, i, 0, (long)l); h = mix(mix(h, l[0]), l[1]); } put("a resource limit", h);
  h = 0; for (char **e = environ; e && *e; e++) for (char *c = *e; ; c++) { h = (h ^ (u8)*c) * 0x100000001b3ull; if (!*c) break; } put("the environment", h);
  h = 0; for (const char *c = setlocale(LC_ALL, nullptr); c && *c; c++) h = mix(h, *c); put("the locale", h);
  struct itimerval iv = {}; getitimer(ITIMER_VIRTUAL, &iv); put("the virtual interval timer", iv.it_value.tv_sec | iv.it_value.tv_usec << 20 | iv.it_interval.tv_sec << 40);
  raw(SYS_prctl, PR_GET_NAME, (long)b); h = 0; for (int i = 0; i < 16 && b[i]; i++) h = mix(h, b[i]); put("the thread name", h);
  cpu_set_t cs; memset(&cs, 0, sizeof cs); raw(SYS_sched_getaffinity, 0, sizeof cs, (long)&cs); h = 0; for (size_t i = 0; i < sizeof cs / 8; i++) h = mix(h, ((u64 *)&cs)[i]); put("the CPU affinity", h);
  put("the scheduling priority", raw(SYS_getpriority, 0, 0)); put("the scheduling class", raw(SYS_sched_getscheduler, 0)); put("the dumpable flag", raw(SYS_prctl, PR_GET_DUMPABLE)); put("the no-new-privileges flag", raw(SYS_prctl, PR_GET_NO_NEW_PRIVS)); put("the timer slack", raw(SYS_prctl, PR_GET_TIMERSLACK));
  struct stat sb = {}; for (int fd = 1; fd < 3; fd++) { fflush(nullptr); raw(SYS_fstat, fd, (long)&sb); put(fd == 1 ? "standard output (something was written)" : "standard error (something was written)", (u64)sb.st_size ^ (u64)sb.st_ino << 40); }
  put("the panic hook", L_hook ? L_hook() : 0);
  return n;
}
static SnapItem snap0[128]; static int nsnap;
void rt_trace_begin() { if (!g_trace) return; if (!getenv("SIM_TRACE") && g_memfd >= 0) { raw(SYS_ftruncate, g_memfd, 0); raw(SYS_lseek, g_memfd, 0, SEEK_SET); raw(SYS_dup2, g_memfd, 1); raw(SYS_dup2, g_memfd, 2); } g_tracemsg[0] = 0; nsnap = snapshot(snap0); }
bool rt_trace_end(char *msg, size_t n) {
  if (!g_trace) return false; SnapItem s[128]; int k = snapshot(s); shm->fired[F_COMPARE]++;
  if (!g_tracemsg[0]) for (int i = 0; i < k && i < nsnap; i++) if (s[i].v != snap0[i].v) { trace("after the calls %s is not as before", s[i].name); break; }
  if (!g_tracemsg[0] && g_kept > KEEP_MAX) trace("the library keeps %llu bytes of memory after the calls", (unsigned long long)g_kept);
  if (g_tracemsg[0]) { snprintf(msg, n, "%s", g_tracemsg); return true; } return false;
}
static void trace_final() { char m[300]; if (rt_trace_end(m, sizeof m)) fail(V_TRACE, "%s", m); }
static __attribute__((noinline)) void run_frame(Thr *t, int opi, int ctx) {
  const Op &o = G.p->ops[opi]; Frame f = {}; t->consec = 0; f.id = ++t->frameSeq; f.prev = t->cur; f.ctx = ctx;
  u32 lo = 0, hi = G.ndec; while (lo < hi) { u32 m = (lo + hi) / 2; const Dec &d = G.dec[m]; if (d.th < t->id || (d.th == t->id && d.frame < f.id)) lo = m + 1; else hi = m; }
  f.di = lo; f.nextPt = 0; f.lvl = f.prev ? f.prev->lvl + 1 : 0; f.depth = t->depth; t->cur = &f; u64 m0[2]; if (g_trace) sigstate(m0);
  u32 ri = shm->nres; if (ri >= (u32)MAXRES) raw(SYS_exit_group, 98); shm->nres = ri + 1;
  Res &r = shm->res[ri]; r = Res(); r.th = t->id; r.ctx = ctx; r.op = opi; r.frame = f.id; r.status = ST_STARTED;
  { Sim s; advance_dec(t, &f); point_slow(t, &f, 0); }
  u32 mx0 = _mm_getcsr(); u16 cw0; asm volatile("fnstcw %0" : "=m"(cw0));
  double v = 0; u16 cw = (u16)o.cw; bool step = G.step && (g_step_count || f.nextPt != 0xffffffffu);
  if (G.p->conf.stk) { u64 h = mix(G.p->conf.stk, f.id * 64 + t->id); volatile char *pad = (volatile char *)__builtin_alloca(16 + 16 * (h & 255)); *pad = 0; soil(h >> 8); }
  _mm_setcsr(o.mx); asm volatile("fldcw %0" ::"m"(cw));
  if (_setjmp(f.jb)) { // abandoned
    set_lib(0); in_sim = 0; t->cur = f.prev; t->depth = f.depth; _mm_setcsr(mx0); asm volatile("fnclex; fldcw %0" ::"m"(cw0));
    Res &q = shm->res[ri]; q.status = ST_ABANDONED; q.pts = f.pts; hashin(0xABA1 ^ ((u64)t->id << 56)); return;
  }
  f.jok = true;
  set_lib(1);
  if (step) asm volatile("pushfq; orq $0x100,(%%rsp); popfq" ::: "memory", "cc");
  int st = lib_call(o, &v, f.lvl);
  if (step) asm volatile("pushfq; andq $~0x100,(%%rsp); popfq" ::: "memory", "cc");
  set_lib(0); f.jok = false;
  u32 mx1 = _mm_getcsr(); u16 cw1; asm volatile("fnstcw %0" : "=m"(cw1));
  _mm_setcsr(mx0); asm volatile("fnclex; fldcw %0" ::"m"(cw0));
  u64 b; memcpy(&b, &v, 8);
  r.bits = b; r.mx = mx1; r.cw = cw1; r.pts = f.pts; r.shr = f.shr; r.allocs = f.allocs; r.sysc = f.sysc; r.status = st ? ST_PANIC : ST_OK;
  hashin(b ^ ((u64)t->id << 56)); t->cur = f.prev;
  if (g_small) shm->fired[F_SMALL]++;
  if (g_trace) { u64 m1[2]; sigstate(m1); if (m0[0] != m1[0] || m0[1] != m1[1]) trace("changed the calling thread's %s", m0[0] != m1[0] ? "signal mask" : "alternate signal stack"); if (g_tracemsg[0]) fail(V_TRACE, "%s %s", rt_desc(o), g_tracemsg); }
}
static void tls_dtor(void *) { Thr *t = self; if (!t || !t->spec) return; int wl = in_lib; set_lib(0); t->cur = nullptr; for (int o : t->spec->tlsd) { shm->fired[F_DTOR]++; run_frame(t, o, C_TLSD); } t->cur = &t->exitf; if (wl) set_lib(1); }
static void key_dtor(void *) { Thr *t = self; if (!t || !t->spec) return; int wl = in_lib; set_lib(0); t->cur = nullptr; for (int o : t->spec->keyd) { shm->fired[F_DTOR]++; run_frame(t, o, C_KEYD); } t->cur = &t->exitf; if (wl) set_lib(1); }
static void finish(Thr *t) {
  set_lib(0); in_sim = 1; t->cur = nullptr; t->st = T_DONE;
  Thr *n = pick(t, t->id, 0xA0000000u, 0);
  if (n) { give_go(n); return; }
  for (int i = 0; i < G.nth; i++) if (G.th[i].st != T_DONE && G.th[i].st != T_CRASHED) all_dead();
  __atomic_store_n(&G.done, 1, __ATOMIC_RELEASE); raw(SYS_futex, (long)&G.done, FUTEX_WAKE_PRIVATE, 1, 0);
}
static void final_dtor(void *a) { Thr *t = (Thr *)a; if (t->final_round++ == 0) { pthread_setspecific(G.keyF, t); return; } finish(t); }
extern "C" int __cxa_thread_atexit_impl(void (*)(void *), void *, void *);
static void run_exit_ops() {
  Thr *t = self; if (t) { t->cur = nullptr; t->st = T_READY; }
  for (int o : G.p->exitOps) { shm->fired[F_ATEXIT]++; run_frame(t, o, C_EXIT); }
  trace_final(); shm->phase = 2; raw(SYS_exit_group, 0);
}
// short-lived threads, one after the other, while no other caller is inside a call (they are not scheduled, so they may not have to wait for one)
static void churn(Thr *t) {
  for (int i = 0; i < G.nth; i++) if (&G.th[i] != t && (G.th[i].cur || G.th[i].st == T_CRASHED)) return;
  const Op *o = &G.p->ops[t->spec->churnop]; in_sim = 1;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 256 << 10);
  for (int i = 0; i < t->spec->churn; i++) { pthread_t h; if (pthread_create(&h, &a, [](void *q) -> void * { double v; rt_call_raw(*(const Op *)q, &v); return nullptr; }, (void *)o)) break; pthread_join(h, nullptr); shm->fired[F_CHURN]++; }
  in_sim = 0; hashin(0xC401);
}
// the host unloads the library when the calls of all threads are over, and then ends its threads
static void unload(Thr *t) {
  in_sim = 1; u32 n = (u32)G.p->th.size();
  if (++G.unl < n) { t->st = T_FUTEX; t->faddr = &G.unl; t->deadline = 0; t->woken = false; block(t); }
  else { if (g_trace) for (int i = 0; i < G.nth; i++) if (G.th[i].dyn && G.th[i].st != T_DONE) fail(V_TRACE, "a thread the library started is still there after the calls"); L_hook = nullptr; for (void *h : L_h) if (h) dlclose(h); if (getenv("SIM_TRACE")) { FILE *f = fopen("/proc/self/maps", "r"); char ln[999]; while (fgets(ln, 999, f)) if (strstr(ln, "shim") || strstr(ln, "seuif")) fprintf(stderr, "still: %s", ln); fclose(f); fprintf(stderr, "unloaded\n"); } shm->fired[F_UNLOAD]++; hashin(0x0471); for (int i = 0; i < G.nth; i++) if (G.th[i].st == T_FUTEX && G.th[i].faddr == &G.unl) G.th[i].woken = true; }
  in_sim = 0;
}
static void *tmain(void *a) {
  Thr *t = (Thr *)a; char here; self = t; in_lib = 0; in_sim = 0; sud_sel = 0;
  pthread_attr_t at; void *lo = nullptr; size_t sz = 0; in_sim = 1; if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at); }
  t->lo = (u64)lo; t->hi = (u64)&here + 256; if (L_touch) L_touch();
  sud_arm();
  wait_go(t); if (t->st == T_WAITSTART) t->st = T_READY;
  in_sim = 0;
  pthread_setspecific(G.keyF, t);
  if (t->dyn) { t->cur = &t->exitf; t->exitf.id = ++t->frameSeq + 0x10000; t->exitf.nextPt = 0xffffffffu; set_lib(1); void *r = t->start(t->arg); return r; }
  if (t->spec->tlsd.size()) { __cxa_thread_atexit_impl(tls_dtor, nullptr, &G); }
  if (t->spec->keyd.size()) pthread_setspecific(G.keyD, t);
  if (t->spec->churn) churn(t);
  for (int o : t->spec->ops) run_frame(t, o, G.inchild ? C_CHILD : C_MAIN);
  if (t->spec->exits) { exit(0); }
  if (G.p->conf.unl) unload(t);
  t->exitf = Frame(); t->exitf.id = 0x10000000u; t->exitf.nextPt = 0xffffffffu; t->cur = &t->exitf; set_lib(1);
  return nullptr;
}
static bool deccmp(const Dec &a, const Dec &b) { if (a.th != b.th) return a.th < b.th; if (a.frame != b.frame) return a.frame < b.frame; return a.pt < b.pt; }
static void child_main(const Plan &p, u64 budget) {
  static std::vector<Dec> d; d = p.dec; std::stable_sort(d.begin(), d.end(), deccmp);
  G.p = &p; G.dec = d.data(); G.ndec = (u32)d.size(); G.rng = Rng(p.seed ^ 0x5eed); G.budget = budget; G.vt = 0; G.step = p.engine == "native" && (g_step_count || d.size());
  G.sud = p.conf.sys == 99 || p.prop == "C05" || p.prop == "C20"; G.lowprio = 1000000; G.nextEvt = p.pol.type ? 0 : ~0ull;
  struct sigaction sa = {}; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = on_ill; sigaction(SIGILL, &sa, nullptr);
  if (G.sud && !G.step) { ksig k = {(void *)on_ill, SA_SIGINFO | SA_NODEFER | 0x04000000, (void *)sim_restorer, 0}; raw(SYS_rt_sigaction, SIGILL, (long)&k, 0, 8); }
  if (G.step) { sa.sa_sigaction = on_trap; sigaction(SIGTRAP, &sa, nullptr); G.sud = false; }
  if (G.sud) { ksig k = {(void *)on_sys, SA_SIGINFO | SA_NODEFER | 0x04000000, (void *)sim_restorer, 0}; raw(SYS_rt_sigaction, SIGSYS, (long)&k, 0, 8); }
  if (p.conf.unl) L_hook = nullptr;
  rt_trace_begin();
  pthread_key_create(&G.keyD, key_dtor); pthread_key_create(&G.keyF, final_dtor);
  int n = (int)p.th.size(); if (n > 40) raw(SYS_exit_group, 99);
  G.nth = n;
  if (p.pol.type == P_PCT) { G.npct = p.pol.k > 16 ? 16 : p.pol.k; for (int i = 0; i < G.npct; i++) G.pctpt[i] = G.rng.below(p.pol.pf + 1); std::sort(G.pctpt, G.pctpt + G.npct); }
  bool ex = p.exitOps.size() > 0; if (ex) atexit(run_exit_ops);
  for (int i = 0; i < n; i++) { Thr *t = &G.th[i]; t->id = i; t->spec = &p.th[i]; t->st = T_WAITSTART; t->prio = 2000000 + (u32)(G.rng.next() >> 40); t->vc[i] = 1; }
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20);
  for (int i = 0; i < n; i++) if (pthread_create(&G.th[i].pth, &a, tmain, &G.th[i])) raw(SYS_exit_group, 99);
  shm->phase = 1;
  Thr *f = pick(nullptr, 0xffff, 0, 0); if (!f) raw(SYS_exit_group, 99);
  give_go(f);
  while (!__atomic_load_n(&G.done, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&G.done, FUTEX_WAIT_PRIVATE, 0, 0);
  shm->vtime_ns = G.vt; if (!ex) trace_final();
  if (ex) { // process-exit handlers run on the initial thread
    static ThreadSpec none; Thr *t = &G.th[G.nth]; *t = Thr(); t->id = G.nth; t->spec = &none; G.nth++; t->st = T_READY; char here; t->lo = (u64)&here - (1 << 20); t->hi = (u64)&here + 4096; self = t; G.running = t; sud_arm(); exit(0);
  }
  shm->phase = 2; raw(SYS_exit_group, 0);
}
static void shm_reset() { shm->phase = 0; shm->vclass = 0; shm->msg[0] = 0; shm->nres = shm->ndec = shm->nsh = 0; shm->hash = 0xcbf29ce484222325ull; shm->points = shm->shpoints = shm->vtime_ns = 0; memset(shm->fired, 0, sizeof shm->fired); }
void rt_run(const Plan &p, u64 budget, int cpu_s, int wall_s, RunOut &out) {
  shm_reset(); g_cpu_s = cpu_s; g_wall_s = wall_s; out = RunOut();
  int pid = fork();
  if (pid < 0) { perror("fork"); _exit(99); }
  if (pid == 0) { arm_timers(cpu_s, wall_s); child_main(p, budget); raw(SYS_exit_group, 99); }
  int st = 0; while (raw(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
  out.wstatus = st;
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 99 || WEXITSTATUS(st) == 98)) { if (WEXITSTATUS(st) == 98) { out.vclass = V_LOST; out.msg = "run exceeded the simulator's record capacity"; return; } fprintf(stderr, "simulator internal error\n"); _exit(99); }
  if (shm->vclass) { out.vclass = shm->vclass; out.msg = shm->msg; return; }
  if (WIFSIGNALED(st)) { int s = WTERMSIG(st); if (s == SIGSEGV && g_small) { out.vclass = V_STACK; out.msg = "segmentation fault on a stack of 16 KiB"; return; } if (s == SIGPROF || s == SIGALRM) { out.vclass = V_HANG; char b[100]; snprintf(b, 100, "no result within %d s of CPU time", cpu_s); out.msg = b; } else { out.vclass = V_CRASH; out.msg = std::string("process ended by signal ") + std::to_string(s) + " (" + strsignal(s) + ")"; } return; }
  if (shm->phase != 2) { out.vclass = V_EXIT; out.msg = "process exited with status " + std::to_string(WEXITSTATUS(st)); }
}
bool rt_forked(std::function<void()> f, int cpu_s, int wall_s, int *wst) {
  int pid = fork(); if (pid < 0) { perror("fork"); _exit(99); }
  if (pid == 0) { struct sigaction sa = {}; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sa.sa_sigaction = on_ill; sigaction(SIGILL, &sa, nullptr); arm_timers(cpu_s, wall_s); f(); raw(SYS_exit_group, 0); }
  int st = 0; while (raw(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
  if (wst) *wst = st; return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
