// Simulated plane-registration sessions on the real PlaneRegistration / Plane classes, with a reference model.
#pragma once
#include "props.hpp"
#include "mrob/plane_registration.hpp"
#include <memory>
#include <set>
namespace planes {
using ref::M; using ref::V; using ref::V3; using ref::M3; using ref::M4; using ref::V6; using ref::M6;
struct PReg : mrob::PlaneRegistration {
#ifndef NO_PROTECTED
    bool system(V &g, M &h) { g = gradient_; h = hessian_; return true; }
#else
    bool system(V &, M &) { return false; }
#endif
};
enum Mode { INITIALIZE = 0, GRADIENT, NAG, ALLPOSES, GN, CLAMPED, LM_S, LM_E };
struct Pl { std::vector<std::vector<V3>> pts; std::shared_ptr<mrob::Plane> obj; bool inreg = false; bool est = false; std::vector<M4> Q; M4 acc; };
struct PSess {
    Ctx &cx; std::unique_ptr<PReg> reg; int T = 0; std::map<i64, Pl> pl;
    explicit PSess(Ctx &c);
    ~PSess();
    std::vector<M4> traj();
    i64 count() const;                         // points in the registration
    int nplanes() const;
    bool seen_at(int t) const;                 // any point of a registered plane at pose t
    double err(const std::vector<M4> &T, double *scale = nullptr) const;      // reference error
    static M4 scatter(const std::vector<V3> &p);
    double eval();                             // library error (and snapshots for the incremental model)
    bool exec(const Op &o);                    // false: not applicable
    void check_error(const char *when);
    void check_gradient(const char *when);
    void check_counts(const char *when, bool clouds);
    void check_traj(const char *when);
    void digest();
    std::vector<M4> last;                      // trajectory when the registration was destroyed
    void drop_reg();                           // destroy the registration, keep the user's planes
    bool read_orphans();                       // evaluate planes whose registration is gone
    std::vector<double> evaluate();            // print_evaluate
};
// world of physical planes observed along a trajectory
struct PW { int poses, nplanes; V6 xi; std::vector<M4> truth; std::vector<std::vector<V3>> pts; std::vector<std::vector<char>> vis; double noise; bool dense = false; };
struct PCfg { bool dense = false; int poses = 3, nplanes = 5, ppp = 6; double noise = 0, vis = 1, rot = 0.8, tr = 1.5; };
PW make_world(Rng &r, const PCfg &c);
PCfg random_cfg(Rng &r, int size);
Op pt_op(i64 id, int t, const V3 &p, int route = 0);
// all point operations, in a random arrival order when order != 0
std::vector<Op> points(Rng &r, const PW &w, int order, Stats &st);
Op setlast_op(const V6 &x);
M4 to4(const mrob::SE3 &x);
}
