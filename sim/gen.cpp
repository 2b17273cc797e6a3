// Operation generators: families of calls that would collide in any state the library might keep.
#include "gen.h"
#include <cmath>
#include <sys/mman.h>
static const int NID = 37; // 0..35 and one id nobody defines
const u64 GRID_N = 12 * NID * 5;
Op *g_cur;
static double one(int fn, double x, double y, int o) { Op a; a.fn = fn; a.x = d2b(x); a.y = d2b(y); a.o = o; double v = NAN; if (g_cur) *g_cur = a; rt_call_raw(a, &v); return v; }
static bool good(double v) { return std::isfinite(v) && v > -900; }
enum { OP_ = 0, OT_ = 1, OV_ = 3, OH_ = 4, OS_ = 5, OX_ = 15, OR_ = 16 };
static bool derive(Rng &r, int reg, State &s) {
  for (int k = 0; k < 40; k++) {
    s.reg = reg; s.x = r.chance(1, 4) ? (r.chance(1, 2) ? 0.0 : 1.0) : r.unit();
    bool edge = r.chance(1, 8);
    switch (reg) {
    case 1: if (r.chance(1, 24)) { s.t = r.chance(1, 2) ? r.range(0.01, 250) : r.range(250, 350); s.p = std::fmax(one(9, s.t, 0, OP_) * (1 + (r.chance(1, 2) ? 2e-6 : r.unit() * .1)), 0.000612); break; } s.t = edge ? (r.chance(1, 2) ? 0.0 : 350.0) : r.range(0, 350); s.p = edge && r.chance(1, 2) ? 100 : std::exp(r.range(std::log(0.01), std::log(100.))); break;
    case 2: if (r.chance(1, 24)) { s.t = r.range(560, 620); s.p = r.range(60, 100); break; } if (r.chance(1, 12)) { s.t = r.chance(1, 2) ? r.range(350.01, 590) : r.range(0.02, 350); s.p = s.t < 350 ? one(9, s.t, 1, OP_) * (1 - r.unit() * .05 - 2e-6) : r.range(10, 100); break; } if (r.chance(1, 24)) { s.t = 350 + std::floor(r.unit() * 17) * 12.5; static const double P[] = {0.000611212677, 0.0006113, 4, 100, 6.546699678, 1, 1.91003961}; s.p = P[r.below(7)]; break; } s.t = edge ? 800 : r.range(0.1, 800); s.p = std::exp(r.range(std::log(0.0007), std::log(100.))); break;
    case 3: if (r.chance(1, 3)) { static const double P[] = {16.53, 19.00881189173929, 20.5, 21.04336732, 21.93161551, 21.90096265, 22.064, 22.11, 22.5, 23, 23.5, 25, 40, 100}; int i = (int)r.below(13); s.p = r.range(P[i], P[i + 1]); double w = s.p > 25 ? r.range(350, 590) : r.range(-12, 22) + 373.9 + (s.p - 22.064) * 5; s.t = r.chance(1, 12) ? 373.946 : s.p > 21.9 && s.p < 30 && r.chance(1, 3) ? 373.946 + 3.727888004 * (s.p - 22.064) + r.range(-1, 1) * std::pow(10., -(int)r.below(3)) : w; if (r.chance(1, 24)) { s.p = 22.064; s.t = 373.946; } if (r.chance(1, 12)) { s.p = r.range(50, 100); s.t = r.range(520, 590); } } else if (r.chance(1, 3)) { s.t = 373.946 + r.range(-2, 2); s.p = 22.064 + r.range(-.5, .5); } else { s.t = r.range(350, 590); s.p = r.range(16.6, 100); } break;
    case 5: if (r.chance(1, 12)) { static const double P[] = {50, 0.001, 0.000611212677, 25.0003056063385, 25.000305606}; s.p = P[r.below(5)]; s.t = r.chance(1, 2) ? 1400 : r.chance(1, 2) ? 2000 : 800.01; break; } s.t = r.range(800.01, 2000); s.p = std::exp(r.range(std::log(0.001), std::log(50.))); break;
    default: { s.t = r.chance(1, 16) ? 373.946 : r.chance(1, 4) ? r.range(350, 373.9) : r.range(0.01, 373.9); s.p = one(9, s.t, s.x, OP_); if (!good(s.p)) continue; s.v = one(9, s.t, s.x, OV_); s.h = one(9, s.t, s.x, OH_); s.s = one(9, s.t, s.x, OS_); if (good(s.v) && good(s.h) && good(s.s)) return true; continue; }
    }
    int got = (int)one(0, s.p, s.t, OR_);
    if (got != reg && k < 39) continue;
    s.v = one(0, s.p, s.t, OV_); s.h = one(0, s.p, s.t, OH_); s.s = one(0, s.p, s.t, OS_);
    if (good(s.v) && good(s.h) && good(s.s)) return true;
  }
  return false;
}
static void args(const State &s, int fn, double &x, double &y) {
  switch (fn) { case 0: x = s.p; y = s.t; break; case 1: x = s.p; y = s.h; break; case 2: x = s.p; y = s.s; break; case 3: x = s.p; y = s.v; break; case 4: x = s.t; y = s.v; break; case 5: x = s.t; y = s.h; break; case 6: x = s.t; y = s.s; break; case 7: x = s.h; y = s.s; break; case 8: x = s.p; y = s.x; break; case 9: x = s.t; y = s.x; break; case 10: x = s.h; y = s.x; break; default: x = s.s; y = s.x; }
}
static double nudge(Rng &r, double v) {
  static const double E[] = {0, 1e-15, 1e-12, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2};
  u32 k = r.below(14); double sg = r.chance(1, 2) ? 1 : -1;
  if (k == 12) return std::nextafter(v, sg * 1e300);
  if (k == 13) return v + sg * E[r.below(12)];
  return v * (1 + sg * E[k]);
}
static double badval(Rng &r, double v) {
  static const double B[] = {NAN, -NAN, INFINITY, -INFINITY, 0.0, -0.0, 5e-324, -5e-324, 1e-300, 1.7976931348623157e308, -1.7976931348623157e308, -273.15, -1, 1, 647.096, 373.946, 22.064, 1e9, -9999, -1000, 2.2250738585072014e-308, 273.15, 350.0, 100.0, 16.529164252604481, 0.0006112126774, 4294967296.0, 1e16};
  switch (r.below(6)) {
  case 0: case 1: return B[r.below(sizeof B / sizeof *B)];
  case 2: return b2d(d2b(v) ^ (1ull << r.below(64)));
  case 3: return -v;
  case 4: { static const double M[] = {10, 1e-1, 1e3, 1e-3, 1e6, 1e-6, 1e12, 1e-12, 2, .5, 1.05, .95}; return v * M[r.below(12)]; }
  default: return r.chance(1, 2) ? b2d(r.next()) : b2d(0x7ff0000000000001ull | (r.next() & 0x800fffffffffffffull));
  }
}
// different calls that a careless cache key would confuse
static void collide(Rng &r, Op &a, u32 k) {
  double x = b2d(a.x), y = b2d(a.y);
  switch (k) {
  case 0: { u64 m = 1ull << r.below(52); a.x ^= m; a.y ^= m; break; }                     // same exclusive-or of the arguments
  case 1: { int n = 1 + (int)r.below(3); for (int i = 0; i < n; i++) { x = std::nextafter(x, 1e300); y = std::nextafter(y, -1e300); } a.x = d2b(x); a.y = d2b(y); break; } // same sum of bits
  case 2: { double d = std::ldexp(1.0, -(int)r.below(12)); if (x > d) { a.x = d2b(x - d); a.y = d2b(y + d); } break; }  // same sum
  case 3: a.x = d2b(x * 2); a.y = d2b(y / 2); break;                                       // same product
  case 4: if (r.chance(1, 2)) a.x = d2b((double)(float)x); else a.y = d2b((double)(float)y); break; // same in single precision
  case 5: { double q = std::pow(10.0, (int)r.below(9)); if (r.chance(1, 2)) a.x = d2b(std::floor(x * q + .5) / q); else a.y = d2b(std::floor(y * q + .5) / q); break; } // same when printed
  default: { static const i32 D[] = {256, 65536, 16, 32, 64, 128, 36, 37, 40, 100}; a.o += D[r.below(10)]; } // same property id in fewer bits
  }
}
Op corrupt(Rng &r, const Op &a) {
  Op b = a; u32 k = r.below(8);
  if (k <= 1) b.x = d2b(badval(r, b2d(a.x)));
  else if (k <= 3) b.y = d2b(badval(r, b2d(a.y)));
  else if (k == 4) { b.x = d2b(badval(r, b2d(a.x))); b.y = d2b(badval(r, b2d(a.y))); }
  else if (k == 5) std::swap(b.x, b.y);
  else if (k == 6) { static const i32 I[] = {-1, 36, 37, 99, 100, 2147483647, (i32)0x80000000, 32767, -32768, 255, 256, 64, 65536, -2, 1000}; b.o = r.chance(1, 4) ? (i32)r.next() : I[r.below(15)]; }
  else { static const i32 I[] = {-1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 2147483647, (i32)0x80000000}; if (b.surf == S_RUST) b.surf = S_RUSTREG; if (b.surf == S_RUSTREG) b.reg = I[r.below(13)]; else b.y = d2b(badval(r, b2d(a.y))); }
  return b;
}
Op sweep_op(Rng &r, const std::vector<State> &st, bool bad);
void make_pool(Rng &r, const PoolReq &q, Pool &out) {
  struct Sh { int n; State s[8]; }; static Sh *sh = nullptr;
  if (!sh) sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int reg = 1 + (int)(q.grid % 5), id = (int)(q.grid / 5 % NID), fn = (int)(q.grid / 5 / NID % 12);
  u64 sd = r.next(); sh->n = 0;
  rt_forked([&] { Rng rr(sd); for (int i = 0; i < 4; i++) { State s; int g = i == 0 ? reg : 1 + (int)rr.below(5); if (i == 1 && rr.chance(1, 2)) g = reg; if (derive(rr, g, s)) sh->s[sh->n++] = s; } }, 10, 120, nullptr);
  out = Pool(); for (int i = 0; i < sh->n; i++) out.st.push_back(sh->s[i]);
  if (out.st.empty()) out.st.push_back({3.0, 26.85, 0.00100215168, 115.331273, 0.392294792, 0.5, 1});
  int theme = (int)r.below(5); // 0 one function, 1 all functions of one state, 2 ids, 3 neighbours, 4 mixture
  auto mk = [&](const State &s, int f, int o) { Op a; double x, y; args(s, f, x, y); a.fn = f; a.o = o; a.x = d2b(x); a.y = d2b(y); a.surf = q.canary >= 0 ? S_CANARY + q.canary : q.c ? S_C : S_RUST; if (q.mixc && r.chance(1, 3)) a.surf = S_RUST; if (a.surf == S_RUST && q.canary < 0 && f < 8 && r.chance(1, 5)) { a.surf = S_RUSTREG; a.reg = r.chance(3, 4) ? s.reg : 1 + (int)r.below(5); } if (q.canary >= 0) { a.fn = 0; } return a; };
  auto pickst = [&]() -> const State & { return out.st[r.chance(2, 3) ? 0 : r.below((u32)out.st.size())]; };
  static const int COMMON[] = {OP_, OT_, OV_, OH_, OS_, OX_, OR_, 8, 9, 10, 6, 2};
  auto rid = [&] { return r.chance(1, 2) ? COMMON[r.below(12)] : (int)r.below(36); };
  out.ops.push_back(mk(out.st[0], fn, id));
  while ((int)out.ops.size() < q.size) {
    Op b = out.ops[r.below((u32)out.ops.size())], a;
    switch (theme == 4 ? (int)r.below(5) : r.chance(1, 6) ? (int)r.below(5) : theme) {
    case 0: a = mk(pickst(), fn, r.chance(2, 3) ? id : rid()); break;
    case 1: a = mk(out.st[0], (int)r.below(12), r.chance(1, 2) ? id : rid()); break;
    case 2: a = out.ops[0]; a.o = rid(); break;
    case 3: a = b; if (r.chance(1, 2)) a.x = d2b(nudge(r, b2d(a.x))); if (r.chance(1, 2) || d2b(b2d(a.x)) == b.x) a.y = d2b(nudge(r, b2d(a.y))); break;
    default: a = b; { u32 k = r.below(12); if (k >= 5) { collide(r, a, k - 5); break; } if (k == 0) std::swap(a.x, a.y); else if (k == 1) { a.fn = q.canary >= 0 ? 0 : (int)r.below(12); } else if (k == 2 && a.surf <= S_RUSTREG) { if (a.surf == S_RUST && a.fn < 8) { a.surf = S_RUSTREG; a.reg = 1 + r.below(5); } else a.surf = S_RUST; } else a = mk(pickst(), (int)r.below(12), rid()); }
    }
    if (q.canary < 0 && r.chance(1, 10)) { Op z = sweep_op(r, out.st, false); if (q.c && !(q.mixc && r.chance(1, 3))) z.surf = S_C; a = z; }
    if (r.chance(1, 10) || (q.bad && r.chance(1, 3))) { a = corrupt(r, a); out.nbad++; }
    out.ops.push_back(a);
  }
}

static double pickv(Rng &r, int kind) { // 0 p 1 t 2 v 3 h 4 s 5 x
  static const double BP[] = {0.000611212677, 0.0006112126774, 16.5291642526, 22.064, 50, 100, 10, 4, 6.546699678, 0.01, 1e-3, 20.0, 25.0, 40.0, 23.0, 20.5, 22.5, 19.00881189, 21.04336732, 17.38, 3.0};
  static const double BT[] = {0, 0.01, 350, 373.946, 590, 800, 2000, 26.85, 360, 373.15, 300, 226.85, 376.85, 346.85};
  static const double BS[] = {3.397782955, 3.77828134, 4.41202148223476, 5.85, 5.048096828, 5.260578707, 9.155759395, 7.852340399, 3.803, 0, -8.58e-3, 4.4, 5.2, 5.9};
  switch (kind) {
  case 0: return r.chance(1, 4) ? nudge(r, BP[r.below(21)]) : r.chance(1, 2) ? std::exp(r.range(std::log(0.0006), std::log(100.))) : r.range(0, 101);
  case 1: return r.chance(1, 4) ? nudge(r, BT[r.below(14)]) : r.chance(1, 4) ? r.range(800, 2001) : r.range(0, 800);
  case 2: return std::exp(r.range(std::log(0.00095), std::log(r.chance(1, 2) ? 0.02 : 2000.)));
  case 3: return r.chance(1, 4) ? r.range(1950, 2250) : r.chance(1, 8) ? r.range(4000, 7400) : r.range(-1, 4200);
  case 4: return r.chance(1, 4) ? r.range(4.2, 4.7) : r.chance(1, 4) ? nudge(r, BS[r.below(14)]) : r.range(-0.01, 13);
  default: return r.chance(1, 4) ? (double)r.below(2) : r.range(-0.1, 1.1);
  }
}
Op sweep_op(Rng &r, const std::vector<State> &st, bool bad) {
  static const int KX[] = {0, 0, 0, 0, 1, 1, 1, 3, 0, 1, 3, 4}, KY[] = {1, 3, 4, 2, 2, 3, 4, 4, 5, 5, 5, 5};
  Op a; a.fn = (int)r.below(12); a.o = r.chance(1, 3) ? (int)r.below(17) : (int)r.below(37); u32 k = r.below(10); if (!bad && k > 5) k = r.below(6);
  double x, y;
  if (k < 3 || k == 6 || k == 7) { args(st[r.below((u32)st.size())], a.fn, x, y); if (r.chance(1, 2)) x = nudge(r, x); if (r.chance(1, 2)) y = nudge(r, y); }
  else if (k < 6 || k == 8) { if (r.chance(1, 5)) { a.fn = 7; if (r.chance(1, 2)) { x = r.range(2020, 2185); y = r.range(4.3, 4.56); } else { y = r.range(3.3, 9.2); x = r.range(1600, 2850); } } else { x = pickv(r, KX[a.fn]); y = pickv(r, KY[a.fn]); } }
  else { x = badval(r, r.unit() * 100); y = badval(r, r.unit() * 500); }
  a.x = d2b(x); a.y = d2b(y);
  if (a.fn < 8 && r.chance(1, 5)) { a.surf = S_RUSTREG; a.reg = (int)r.below(7); }
  if (bad && k >= 6) a = corrupt(r, a);
  return a;
}
void sweep_states(Rng &r, std::vector<State> &v) { for (int i = 0; i < 10; i++) { State s; if (derive(r, 1 + i % 5, s)) v.push_back(s); } if (v.empty()) v.push_back({3.0, 26.85, 0.00100215168, 115.331273, 0.392294792, 0.5, 1}); }

bool sweep_state(Rng &r, int reg, State &s) { return derive(r, reg, s); }
void state_args(const State &s, int fn, double &x, double &y) { args(s, fn, x, y); }
Op vary(Rng &r, const Op &a, bool hard) { Op b = a; if (hard) { collide(r, b, r.below(7)); return b; } u32 k = r.below(8); if (k == 0) b.o = (i32)r.below(37); else if (k == 1 && b.fn < 8 && b.surf <= S_RUSTREG) { b.surf = b.surf == S_RUST ? S_RUSTREG : S_RUST; b.reg = 1 + (i32)r.below(5); } else { if (k & 1 || k == 2) b.x = d2b(nudge(r, b2d(b.x))); if (!(k & 1) || k == 3) b.y = d2b(nudge(r, b2d(b.y))); } return b; }
