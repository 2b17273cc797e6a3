#pragma once
#include "sim.h"
struct State { double p, t, v, h, s, x; int reg; };
struct Pool { std::vector<Op> ops; int nbad = 0; std::vector<State> st; };
struct PoolReq { bool c = false, mixc = false, bad = false; int canary = -1; u64 grid = 0; int size = 10; bool slow_ok = true; };
extern const u64 GRID_N;
void make_pool(Rng &r, const PoolReq &q, Pool &out);
Op corrupt(Rng &r, const Op &a);
Op sweep_op(Rng &r, const std::vector<State> &st, bool bad);
void sweep_states(Rng &r, std::vector<State> &v);
extern Op *g_cur; // the call a generator is making
bool sweep_state(Rng &r, int reg, State &s);
void state_args(const State &s, int fn, double &x, double &y);
Op vary(Rng &r, const Op &a, bool hard);
