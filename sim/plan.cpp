#include "sim.h"
const char *FN[12] = {"pt", "ph", "ps", "pv", "tv", "th", "ts", "hs", "px", "tx", "hx", "sx"};
const char *ACT[A_N] = {"-", "switch", "crash", "interrupt", "fork", "abandon", "allocfail", "sysfail", "clockjump"};
const char *VN[V_N] = {"none", "MISMATCH", "CRASH", "PANIC", "DEADLOCK", "BUDGET", "HANG", "FPENV", "EXIT", "RACE", "SURFACE", "REFERENCE", "LOST", "STACK", "TRACE"};
const char *FNAME[F_N] = {"thread_switch", "caller_stopped_forever", "reentrant_call", "fork", "alloc_failure", "syscall_failure", "clock_jump", "environment_answer", "random_answer", "cpuid_answer", "cpu_count_answer", "futex_wait", "yield", "library_thread", "timestamp_read", "thread_exit_destructor_call", "process_exit_handler_call", "short_lived_thread", "abandoned_call", "call_on_small_stack", "process_state_comparison", "library_unloaded"};
static void list(FILE *f, const char *tag, const std::vector<int> &v) { fprintf(f, " %s", tag); for (size_t i = 0; i < v.size(); i++) fprintf(f, "%c%d", i ? ',' : '=', v[i]); if (v.empty()) fprintf(f, "=-"); }
static std::vector<int> plist(const char *s) { std::vector<int> v; if (*s == '-') return v; while (*s) { v.push_back(strtol(s, (char **)&s, 10)); if (*s == ',') s++; else break; } return v; }
bool plan_save(const Plan &p, const std::string &file, const std::string &note) {
  FILE *f = fopen(file.c_str(), "w"); if (!f) return false;
  fprintf(f, "simplan 1\nprop %s\nengine %s\nseed %llu\nraces %d\n", p.prop.c_str(), p.engine.c_str(), (unsigned long long)p.seed, (int)p.races);
  size_t a = 0; while (a < note.size()) { size_t b = note.find('\n', a); if (b == std::string::npos) b = note.size(); fprintf(f, "# %s\n", note.substr(a, b - a).c_str()); a = b + 1; }
  fprintf(f, "conf %lld %d %d %d %d %d %d %d %d\n", (long long)p.conf.vt0, p.conf.env, p.conf.rnd, p.conf.cpu, p.conf.ncpu, p.conf.sys, p.conf.alloc, p.conf.stk, p.conf.unl);
  for (size_t i = 0; i < p.ops.size(); i++) { const Op &o = p.ops[i]; fprintf(f, "op %zu %d %d %016llx %016llx %d %d %x %x  # %s\n", i, o.surf, o.fn, (unsigned long long)o.x, (unsigned long long)o.y, o.o, o.reg, o.mx, o.cw, rt_desc(o)); }
  for (auto &s : p.seqs) { fprintf(f, "seq"); list(f, "ops", s); fprintf(f, "\n"); }
  for (auto &t : p.th) { fprintf(f, "thread"); list(f, "ops", t.ops); list(f, "tlsd", t.tlsd); list(f, "keyd", t.keyd); fprintf(f, " after=%d exits=%d", t.after, t.exits); if (t.churn) fprintf(f, " churn=%d churnop=%d", t.churn, t.churnop); fprintf(f, "\n"); }
  if (p.exitOps.size()) { fprintf(f, "atexit"); list(f, "ops", p.exitOps); fprintf(f, "\n"); }
  for (auto &d : p.dec) fprintf(f, "dec %s thread=%u frame=%u at=%u arg=%d\n", ACT[d.act], d.th, d.frame, d.pt, d.arg);
  fprintf(f, "end\n"); fclose(f); return true;
}
bool plan_load(Plan &p, const std::string &file) {
  FILE *f = fopen(file.c_str(), "r"); if (!f) return false;
  static char ln[8 << 20]; bool ok = false; p = Plan();
  while (fgets(ln, sizeof ln, f)) {
    char a[64], b[64]; unsigned long long x, y; int n;
    if (sscanf(ln, "prop %63s", a) == 1) p.prop = a;
    else if (sscanf(ln, "engine %63s", a) == 1) p.engine = a;
    else if (sscanf(ln, "seed %llu", &x) == 1) p.seed = x;
    else if (sscanf(ln, "races %d", &n) == 1) p.races = n;
    else if (!strncmp(ln, "conf ", 5)) { long long v; sscanf(ln, "conf %lld %d %d %d %d %d %d %d %d", &v, &p.conf.env, &p.conf.rnd, &p.conf.cpu, &p.conf.ncpu, &p.conf.sys, &p.conf.alloc, &p.conf.stk, &p.conf.unl); p.conf.vt0 = v; }
    else if (!strncmp(ln, "op ", 3)) { Op o; unsigned mx, cw; int i; sscanf(ln, "op %d %d %d %llx %llx %d %d %x %x", &i, &o.surf, &o.fn, &x, &y, &o.o, &o.reg, &mx, &cw); o.x = x; o.y = y; o.mx = mx; o.cw = cw; p.ops.push_back(o); }
    else if (!strncmp(ln, "seq ops=", 8)) p.seqs.push_back(plist(ln + 8));
    else if (!strncmp(ln, "thread ops=", 11)) { ThreadSpec t; t.ops = plist(ln + 11); char *q; if ((q = strstr(ln, "tlsd="))) t.tlsd = plist(q + 5); if ((q = strstr(ln, "keyd="))) t.keyd = plist(q + 5); if ((q = strstr(ln, "after="))) t.after = atoi(q + 6); if ((q = strstr(ln, "exits="))) t.exits = atoi(q + 6); if ((q = strstr(ln, "churn="))) t.churn = atoi(q + 6); if ((q = strstr(ln, "churnop="))) t.churnop = atoi(q + 8); p.th.push_back(t); }
    else if (!strncmp(ln, "atexit ops=", 11)) p.exitOps = plist(ln + 11);
    else if (!strncmp(ln, "dec ", 4)) { Dec d; unsigned th, fr, pt; int arg; if (sscanf(ln, "dec %63s thread=%u frame=%u at=%u arg=%d", b, &th, &fr, &pt, &arg) == 5) { d.th = th; d.frame = fr; d.pt = pt; d.arg = arg; d.act = 0; for (int i = 1; i < A_N; i++) if (!strcmp(b, ACT[i])) d.act = i; p.dec.push_back(d); } }
    else if (!strncmp(ln, "end", 3)) ok = true;
  }
  fclose(f); return ok;
}
const char *rt_desc(const Op &o) {
  static char s[8][300]; static int k; char *r = s[k = (k + 1) & 7];
  const char *sf = o.surf == 0 ? "rust " : o.surf == 1 ? "rust " : o.surf == 2 ? "C " : "canary ";
  char reg[32] = ""; if (o.surf == 1) snprintf(reg, 32, ",region %d", o.reg);
  char fp[64] = ""; if (o.mx != 0x1f80 || o.cw != 0x37f) snprintf(fp, 64, " [mxcsr %04x fcw %04x]", o.mx, o.cw);
  char cn[16] = ""; if (o.surf >= 100) snprintf(cn, 16, "%d:", o.surf - 100);
  snprintf(r, 300, "%s%s%s(%.17g,%.17g,o_id %d%s)%s", sf, cn, FN[o.fn], b2d(o.x), b2d(o.y), o.o, reg, fp);
  return r;
}
