// Scheduler for Python threads: one baton, decisions from a seeded generator or from a script.
// Also the __tsan_* hooks of the instrumented extension module: while a call has given up the
// interpreter lock, every shared access in it is a scheduling point.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <time.h>
#include <unistd.h>
#include <vector>
typedef uint64_t u64; typedef uint32_t u32;
enum { A_NONE, A_SWITCH, A_RAISE, A_NEST, A_GC, A_FORK, A_PARK };
struct Dec { int th; u32 pt; int act, arg; };
struct Thr { u32 go; bool live, w3; u32 pts; };
static struct { int n, regd; Thr th[16]; u64 rng; u32 ps, pr, pn, pg; u32 psn; u64 budget, steps, hash; std::vector<Dec> script, rec; u32 done; u32 fired[8]; int running; int nseq; u64 idle; int maxraise, maxnest; u32 pf, pk; int maxfork, maxpark; } H;
static __thread int me = -1; static __thread bool released; static __thread bool inhub;
static long raw(long n, long a, long b, long c, long d = 0) { long r; register long r10 asm("r10") = d; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"((long)0) : "rcx", "r11", "memory"); return r; }
static u64 nxt() { u64 z = (H.rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u32 below(u32 n) { return n ? (u32)((nxt() >> 32) * n >> 32) : 0; }
static void hashin(u64 v) { H.hash = (H.hash ^ v) * 0x100000001b3ull; H.hash ^= H.hash >> 29; }
static void wait_go(int t) { while (!__atomic_load_n(&H.th[t].go, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&H.th[t].go, FUTEX_WAIT_PRIVATE, 0); __atomic_store_n(&H.th[t].go, 0, __ATOMIC_RELEASE); }
static void give(int t) { H.running = t; __atomic_store_n(&H.th[t].go, 1, __ATOMIC_RELEASE); raw(SYS_futex, (long)&H.th[t].go, FUTEX_WAKE_PRIVATE, 1); }
template <class T> static T rl(const char *n) { return (T)dlsym(RTLD_NEXT, n); }
extern "C" {
void hub_reset(int n, u64 seed, int ps, int pr, int pn, int pg, int psn, int nseq, u64 budget) { H.n = n; H.regd = 0; for (auto &t : H.th) t = Thr(); H.rng = seed; H.ps = ps; H.pr = pr; H.pn = pn; H.pg = pg; H.psn = psn; H.nseq = nseq; H.budget = budget; H.steps = 0; H.hash = 0xcbf29ce484222325ull; H.script.clear(); H.rec.clear(); H.done = 0; H.idle = 0; memset(H.fired, 0, sizeof H.fired); H.maxraise = 3; H.maxnest = 6; H.pf = H.pk = 0; H.maxfork = 2; H.maxpark = 0; }
void hub_forks(int pf, int pk, int maxpark) { H.pf = pf; H.pk = pk; H.maxpark = maxpark; }
// in a forked child only the forking thread exists
void hub_solo(int t) { for (int i = 0; i < 16; i++) if (i != t) H.th[i].live = H.th[i].w3 = false; H.script.clear(); H.ps = H.pr = H.pn = H.pg = H.psn = H.pf = H.pk = 0; H.idle = 0; H.maxfork = 0; }
void hub_script(int th, u32 pt, int act, int arg) { H.script.push_back({th, pt, act, arg}); }
static bool traced; static char said[300]; static void say(const char *f, const char *a) { if (traced && !said[0]) snprintf(said, sizeof said, f, a); }
void hub_trace(int on) { traced = on; } const char *hub_said() { return said; }
u64 hub_hash() { return H.hash; } u64 hub_steps() { return H.steps; } u32 hub_fired(int k) { return H.fired[k]; }
int hub_nrec() { return (int)H.rec.size(); } int hub_rec(int i, int k) { Dec &d = H.rec[i]; return k == 0 ? d.th : k == 1 ? (int)d.pt : k == 2 ? d.act : d.arg; }
void hub_enter(int t) { me = t; inhub = true; H.th[t].live = true; __atomic_fetch_add(&H.regd, 1, __ATOMIC_ACQ_REL); raw(SYS_futex, (long)&H.regd, FUTEX_WAKE_PRIVATE, 9); wait_go(t); inhub = false; }
void hub_go() { for (;;) { int r = __atomic_load_n(&H.regd, __ATOMIC_ACQUIRE); if (r >= H.n) break; raw(SYS_futex, (long)&H.regd, FUTEX_WAIT_PRIVATE, r); } std::sort(H.script.begin(), H.script.end(), [](const Dec &a, const Dec &b) { return a.th != b.th ? a.th < b.th : a.pt < b.pt; }); give(0); while (!__atomic_load_n(&H.done, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&H.done, FUTEX_WAIT_PRIVATE, 0); }
static int other(int t, bool rnd) { int c[16], k = 0; for (int i = 1; i < H.n; i++) { int j = (t + i) % H.n; if (H.th[j].live) c[k++] = j; } return k ? c[rnd ? below(k) : 0] : -1; }
static void sw(int t, int to) { H.fired[A_SWITCH]++; hashin(((u64)t << 48) ^ ((u64)to << 40) ^ H.th[t].pts); give(to); wait_go(t); }
void hub_leave(int t) { inhub = true; H.th[t].live = false; hashin(0xDEAD + t); int o = other(t, false); for (auto &d : H.script) if (d.th == t && d.pt == 0xffffffffu && d.act == A_SWITCH && H.th[d.arg].live) o = d.arg; if (H.ps && H.script.empty() && o >= 0) { o = other(t, true); } if (o >= 0) { H.rec.push_back({t, 0xffffffffu, A_SWITCH, o}); give(o); } else { __atomic_store_n(&H.done, 1, __ATOMIC_RELEASE); raw(SYS_futex, (long)&H.done, FUTEX_WAKE_PRIVATE, 1); } me = -1; }
static int point_(int t, int kind, bool native);
// the floating-point control settings of the calling thread
u32 hub_fp() { u32 m; uint16_t c; asm volatile("stmxcsr %0" : "=m"(m)); asm volatile("fnstcw %0" : "=m"(c)); return (m & 0xffc0) << 16 | c; }
void hub_setfp(u32 m) { asm volatile("ldmxcsr %0" ::"m"(m)); }
int hub_point(int t, int kind) { return point_(t, kind, false); }
// kind 0: between operations, 1: bytecode, 4: bytecode where an exception cannot be raised, 2: shared access without the interpreter lock, 3: must wait for another thread
static int point_(int t, int kind, bool native) { // native: waits inside the extension holding the interpreter lock
  bool was = inhub; inhub = true; Thr &x = H.th[t]; x.pts++; H.steps++;
  if (H.steps > H.budget) _exit(40);
  if (kind == 3) { if (++H.idle > 3000) _exit(41); } else H.idle = 0;
  x.w3 = kind == 3 && native;
  int act = 0, arg = 0;
  if (H.script.size()) { auto it = std::lower_bound(H.script.begin(), H.script.end(), Dec{t, x.pts, 0, 0}, [](const Dec &a, const Dec &b) { return a.th != b.th ? a.th < b.th : a.pt < b.pt; }); if (it != H.script.end() && it->th == t && it->pt == x.pts) { act = it->act; arg = it->arg; } }
  else if (kind == 2) { if (H.psn && below(65536) < H.psn) { act = A_SWITCH; arg = other(t, true); } else if (H.maxpark > 0 && below(65536) < H.pk) { act = A_PARK; H.maxpark--; } }
  else if (kind != 3) { u32 r = below(65536); if (r < H.ps) { act = A_SWITCH; arg = other(t, true); } else if (kind == 1 && H.maxraise > 0 && below(65536) < H.pr) { act = A_RAISE; H.maxraise--; } else if (kind != 0 && H.maxnest > 0 && below(65536) < H.pn) { act = A_NEST; arg = (int)below(H.nseq); H.maxnest--; } else if (kind != 0 && below(65536) < H.pg) act = A_GC; else if (H.pf && H.maxfork > 0 && below(65536) < H.pf) { act = A_FORK; arg = (int)below(H.nseq); H.maxfork--; } else if (kind != 0 && H.maxpark > 0 && below(65536) < H.pk) { act = A_PARK; H.maxpark--; } }
  if (kind == 3 && act != A_SWITCH) { int o = other(t, false); if (o >= 0) { sw(t, o); } x.w3 = false; inhub = was; return 0; }
  if (act == A_SWITCH && (arg < 0 || arg >= H.n || arg == t || !H.th[arg].live)) act = 0;
  if (act == A_RAISE && kind != 1) act = 0;
  if ((act == A_NEST || act == A_GC) && kind != 1 && kind != 4) act = 0;
  if (act == A_PARK && other(t, false) < 0) act = 0;
  if (act) H.rec.push_back({t, x.pts, act, arg});
  if (act == A_SWITCH) { sw(t, arg); inhub = was; return 0; }
  if (act) { H.fired[act]++; hashin(((u64)act << 56) ^ ((u64)t << 48) ^ x.pts); }
  if (act == A_PARK) { x.live = x.w3 = false; give(other(t, false)); for (;;) wait_go(t); }
  inhub = was; return act | arg << 8;
}
void hub_result(u64 b) { hashin(b); }
void hub_gil_released() { if (me < 0) return; released = true; H.fired[7]++; hub_point(me, 2); }
void hub_gil_wanted() { if (me < 0) return; hub_point(me, 2); for (;;) { int k = -1; for (int i = 0; i < H.n; i++) if (i != me && H.th[i].live && H.th[i].w3) k = i; if (k < 0) break; bool was = inhub; inhub = true; H.steps++; sw(me, k); inhub = was; } released = false; }
struct Range { u64 a, b; };
static Range RO[256]; static int nro = -1;
static __thread u64 slo, shi;
static bool interesting(u64 a) {
  if (nro < 0) { nro = 0; FILE *f = fopen("/proc/self/maps", "r"); char l[600]; while (f && fgets(l, sizeof l, f) && nro < 256) { unsigned long x, y; char p[8]; if (sscanf(l, "%lx-%lx %7s", &x, &y, p) == 3 && p[1] != 'w') RO[nro++] = {x, y}; } if (f) fclose(f); }
  char here; u64 h = (u64)&here; if (a > h - (4 << 20) && a < h + (1 << 20)) return false;
  for (int i = 0; i < nro; i++) if (a >= RO[i].a && a < RO[i].b) return false;
  return true;
}
static inline void acc(const volatile void *p) { if (!released || inhub || me < 0) return; inhub = true; bool k = interesting((u64)p); inhub = false; if (k) hub_point(me, 2); }
#define RW(N) void __tsan_read##N(void *p) { acc(p); } void __tsan_write##N(void *p) { acc(p); } void __tsan_unaligned_read##N(void *p) { acc(p); } void __tsan_unaligned_write##N(void *p) { acc(p); } void __tsan_read_write##N(void *p) { acc(p); } void __tsan_unaligned_read_write##N(void *p) { acc(p); } void __tsan_volatile_read##N(void *p) { acc(p); } void __tsan_volatile_write##N(void *p) { acc(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, u64) { acc(p); } void __tsan_write_range(void *p, u64) { acc(p); }
void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_init() {} void __tsan_vptr_update(void **, void *) {} void __tsan_vptr_read(void **) {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, u64 n) { acc(s); acc(d); return memcpy(d, s, n); } void *__tsan_memmove(void *d, const void *s, u64 n) { acc(s); acc(d); return memmove(d, s, n); } void *__tsan_memset(void *d, int c, u64 n) { acc(d); return memset(d, c, n); }
#define ATOM(N, T) T __tsan_atomic##N##_load(const volatile T *a, int) { acc(a); return __atomic_load_n(a, 5); } void __tsan_atomic##N##_store(volatile T *a, T v, int) { acc(a); __atomic_store_n(a, v, 5); } T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { acc(a); return __atomic_exchange_n(a, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { acc(a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { acc(a); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { acc(a); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { acc(a); return __atomic_fetch_add(a, v, 5); } T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { acc(a); return __atomic_fetch_sub(a, v, 5); } T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { acc(a); return __atomic_fetch_and(a, v, 5); } T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { acc(a); return __atomic_fetch_or(a, v, 5); } T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { acc(a); return __atomic_fetch_xor(a, v, 5); } T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { acc(a); return __atomic_fetch_nand(a, v, 5); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// a lock of the extension module that is taken: let somebody else run and look again
long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long); va_end(ap);
  if (n == SYS_futex && me >= 0 && !inhub && ((a[1] & 127) == FUTEX_WAIT || (a[1] & 127) == FUTEX_WAIT_BITSET)) { point_(me, 3, !released); return 0; }
  static long (*r)(long, ...); if (!r) r = (long (*)(long, ...))dlsym(RTLD_NEXT, "syscall"); return r(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int sched_yield() noexcept { if (me >= 0 && !inhub && released) { hub_point(me, 3); return 0; } return (int)raw(SYS_sched_yield, 0, 0, 0); }
// what calls do to the process outside (while traced)
ssize_t write(int fd, const void *b, size_t n) { if (traced) { char m[160]; snprintf(m, sizeof m, "%d: %.*s", fd, (int)(n < 120 ? n : 120), (const char *)b); say("wrote to descriptor %s", m); } static ssize_t (*r)(int, const void *, size_t); if (!r) r = rl<decltype(r)>("write"); return r(fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (traced) say("wrote to a descriptor%s", ""); static ssize_t (*r)(int, const struct iovec *, int); if (!r) r = rl<decltype(r)>("writev"); return r(fd, v, c); }
#define WR(fl) (((fl)&O_ACCMODE) != O_RDONLY || ((fl)&O_CREAT))
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (WR(fl)) say("opened %s for writing", p); static int (*r)(const char *, int, ...); if (!r) r = rl<decltype(r)>("open"); return r(p, fl, m); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (WR(fl)) say("opened %s for writing", p); static int (*r)(const char *, int, ...); if (!r) r = rl<decltype(r)>("open64"); return r(p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (WR(fl)) say("opened %s for writing", p); static int (*r)(int, const char *, int, ...); if (!r) r = rl<decltype(r)>("openat64"); return r(d, p, fl, m); }
int setenv(const char *k, const char *v, int o) noexcept { say("set the environment variable %s", k); static int (*r)(const char *, const char *, int); if (!r) r = rl<decltype(r)>("setenv"); return r(k, v, o); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { say("started a thread%s", ""); static int (*r)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); if (!r) r = rl<decltype(r)>("pthread_create"); return r(t, a, f, x); }
}
