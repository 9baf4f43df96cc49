// Executes trace operations on the real library and keeps a mirror for the reference model.
#pragma once
#include "world.hpp"
struct Ctx { Stats &st; Digest dg; i64 solves = 0; explicit Ctx(Stats &s) : st(s) {} };
bool finite(const ref::M &m);
std::string mstr(const ref::M &m);
struct Session {
    Ctx &cx; int gkind;
    std::unique_ptr<sut::GraphI> g;
    ref::Graph mirror;                        // states as last reported by the library, library id order
    std::map<i64, Op> fop;                    // every op seen by tag (nodes and factors)
    std::map<i64, ref::M> anchor0;            // state given to anchored nodes
    i64 nsolves = 0; std::vector<i64> ntags, ftags, etags;     // in id order (etags: eigen factors)
    i64 eigdim = 0;
    Session(Ctx &c, int k) : cx(c), gkind(k) { g = sut::make_graph(k); }
    bool can(const Op &o) const;              // node/fac op applicable now?
    bool add(const Op &o);                    // apply node/fac op; returns false when not applicable
    void mirror_add(const Op &o);
    void sync();                              // read every state back into the mirror
    double cond(int *dim = nullptr) const;    // min/max eigenvalue ratio of the mirror's normal matrix (0 when unsolvable)
    bool wellposed(double eps = 1e-7) const { return cond() > eps; }
    void solve(int method, unsigned iters = 20, double lambda = 1e-6, double tol = 1e-2);
    std::vector<ref::M> states();             // by id order, both solver kinds
    void digest_states();
    void check_anchors(const char *when);
    void check_valid(const char *when, double tol = 1e-6);
    void check_counts(const char *when);
};
ref::Node to_node(const Op &o);
ref::Fac to_fac(const Op &o);
// largest |difference| of two states of the same kind, angles modulo a turn
double state_diff(int kind, const ref::M &a, const ref::M &b);
