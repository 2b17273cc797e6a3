// Deterministic simulator for libraries called by hostile hosts. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <algorithm>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64; typedef int32_t i32;

struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u32 below(u32 n) { return n ? (u32)((next() >> 32) * (u64)n >> 32) : 0; }
  bool chance(u32 num, u32 den) { return below(den) < num; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double range(double a, double b) { return a + (b - a) * unit(); }
};
inline u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)); r.next(); return r.next(); }
inline u64 d2b(double d) { u64 b; memcpy(&b, &d, 8); return b; }
inline double b2d(u64 b) { double d; memcpy(&d, &b, 8); return d; }

enum { S_RUST = 0, S_RUSTREG = 1, S_C = 2, S_CANARY = 100 };
extern const char *FN[12];
struct Op { i32 surf = 0, fn = 0; u64 x = 0, y = 0; i32 o = 0, reg = 0; u32 mx = 0x1f80; u32 cw = 0x37f;
  bool same(const Op &b) const { return surf == b.surf && fn == b.fn && x == b.x && y == b.y && o == b.o && reg == b.reg; } };
struct OpKey { size_t operator()(const Op &a) const { return mix(mix(a.x, a.y), ((u64)(u32)a.o << 32) ^ (u32)a.reg ^ ((u64)a.fn << 20) ^ ((u64)a.surf << 10)); } };
struct OpEq { bool operator()(const Op &a, const Op &b) const { return a.same(b); } };

// decisions: everything the simulator does to a run, keyed by (thread, frame, point or occurrence)
enum Act { A_SW = 1, A_CRASH, A_INT, A_FORK, A_ABANDON, A_ALLOC, A_SYS, A_CLOCK, A_N };
extern const char *ACT[A_N];
struct Dec { u16 th; u16 act; u32 frame; u32 pt; i32 arg; };

struct ThreadSpec { std::vector<int> ops, tlsd, keyd; int after = -1; int exits = 0; int churn = 0, churnop = 0; }; // churn: short-lived threads that come and go before this one calls
enum { P_NONE = 0, P_RANDOM, P_LOCKSTEP, P_PCT };
struct Policy { int type = 0; u32 pf = 0, ps = 0; u32 k = 0; u32 palloc = 0, psys = 0, pclock = 0; };
struct Conf { i64 vt0 = 1700000000; int env = 0, rnd = 0, cpu = 0, ncpu = 0, sys = 0, alloc = 0, stk = 0, unl = 0; }; // stk: seed for where the stack is (in steps of 16 bytes) and what is left on it at every call
struct Plan {
  std::string prop, engine = "instr";
  u64 seed = 0;
  std::vector<Op> ops;
  std::vector<std::vector<int>> seqs; // op lists for nested calls and forked children
  std::vector<ThreadSpec> th;
  std::vector<int> exitOps;
  std::vector<Dec> dec;
  Policy pol; Conf conf;
  bool races = false;
};
enum Vc { V_NONE = 0, V_MISMATCH, V_CRASH, V_PANIC, V_DEADLOCK, V_BUDGET, V_HANG, V_FPENV, V_EXIT, V_RACE, V_SURFACE, V_REF, V_LOST, V_STACK, V_TRACE, V_N };
extern const char *VN[V_N];

enum { ST_NONE = 0, ST_OK = 1, ST_PANIC = 2, ST_STARTED = 3, ST_CRASH = 4, ST_HANG = 5, ST_ABANDONED = 6 };
enum { C_MAIN = 0, C_NEST = 1, C_CHILD = 2, C_TLSD = 3, C_KEYD = 4, C_EXIT = 5 };
struct Res { u16 th; u8 ctx, status; u32 frame; i32 op; u64 bits; u32 mx, cw; u32 pts, shr, allocs, sysc; };
enum { F_SW = 0, F_CRASH, F_INT, F_FORK, F_ALLOC, F_SYS, F_CLOCK, F_ENV, F_RND, F_CPUID, F_NCPU, F_FUTEXWAIT, F_YIELD, F_SPAWN, F_TSC, F_DTOR, F_ATEXIT, F_CHURN, F_ABANDON, F_SMALL, F_COMPARE, F_UNLOAD, F_N };
extern const char *FNAME[F_N];
const int MAXRES = 20000, MAXDEC = 20000, MAXSH = 512;
struct Shm {
  volatile int phase; // 0 not started, 1 running, 2 complete
  volatile int vclass; char msg[400];
  volatile u32 nres; volatile u32 ndec; volatile u32 nsh;
  u64 hash, points, shpoints, vtime_ns; u32 budgetHit;
  u64 fired[F_N];
  u32 shpt[MAXSH];
  Res res[MAXRES];
  Dec dec[MAXDEC];
};
struct RunOut { int vclass = 0; std::string msg; int wstatus = 0; };

// runtime.cpp
extern Shm *shm;
void rt_load(const char *so, const char *patchlist);
extern bool rt_has_c;
void rt_run(const Plan &p, u64 budget, int cpu_s, int wall_s, RunOut &out); // forks
const char *rt_desc(const Op &o);
extern u32 g_step_cap; extern bool g_step_count; // reference run under single-stepping: count instructions
// direct (unscheduled) call for generators and streams; only in forked helpers
int rt_call_raw(const Op &o, double *out);
int rt_call_at(const Op &o, u64 h, double *out); // with the stack moved and soiled
void rt_probe(const Op &o, double *out, u64 *mask);
// small stacks: every call of the process runs on a stack of this many bytes (0: on the caller's own)
extern u32 g_small; extern bool g_paint; u32 rt_stack_used(); const u32 SMALL_STACK = 16 << 10;
// traces: what calls left behind in the process
extern bool g_trace; extern int g_memfd; const u64 KEEP_MAX = 1 << 20;
u64 rt_kept(); bool rt_trace_said(); void rt_trace_begin(); bool rt_trace_end(char *msg, size_t n);
bool rt_forked(std::function<void()> f, int cpu_s, int wall_s, int *wstatus);
bool plan_save(const Plan &p, const std::string &file, const std::string &note);
bool plan_load(Plan &p, const std::string &file);
