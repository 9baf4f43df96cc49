// Generation and execution of general sessions, shared by several properties.
#pragma once
#include "props.hpp"
struct GenOpt {
    double p_solve = 0.12, p_query = 0, p_upd = 0, p_set = 0; bool net = true; int tail = 2; bool lm = true; int max_iters = 8; int gkind = -1;
    bool dup = true;
};
void add_eigs(Rng &r, Trace &t, Stats &st);
Trace gen_session(Rng &r, const world::Cfg &c, const GenOpt &g, Stats &st);   // first op: cfg gkind
Op solve_op(Rng &r, int gkind, bool lm, int max_iters);
Op query_op(Rng &r);
// applies one op; returns false when it did not apply. Updates the mirror.
bool exec(Session &s, const Op &o);
void run_query(Session &s, i64 mask, Digest &d);
inline int cfg_kind(const Trace &t) { for (auto &o : t) if (o.k == "cfg") return (int)o.at(0); return 0; }
// re-order node/fac operations (dependencies respected)
Trace permute(const Trace &ops, u64 seed);
std::map<i64, ref::M> by_tag(Session &s);
void compare_states(Session &a, Session &b, double tol, const char *cls, const char *what);
void compare_bits(Session &a, Session &b, const char *cls, const char *what);
double scale_of(const Session &s);
bool coincident(const ref::Graph &g);
void check_system(Session &s, const ref::Graph &start, bool with_L, const char *when);
bool robust_any(const Trace &t);
bool states_sane(const Session &s, double lim = 1e4);
