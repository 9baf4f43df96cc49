#include "sut.hpp"
#include <algorithm>
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
namespace sut {
Probe probe = {0, 0, 0, 0, 0};
static void tick() { ++probe.seen; if (probe.throw_at && probe.seen == probe.throw_at) { throw UserError(); } }
template <class B> struct Probed : B {
    using B::B;
    void evaluate_residuals() override { ++probe.res; tick(); B::evaluate_residuals(); }
    void evaluate_jacobians() override { ++probe.jac; tick(); B::evaluate_jacobians(); }
    void evaluate_chi2() override { ++probe.chi; tick(); B::evaluate_chi2(); }
};
typedef std::shared_ptr<mrob::Node> NP; typedef std::shared_ptr<mrob::Factor> FP;
typedef mrob::Factor::robustFactorType RT;

static mrob::Mat61 xi(const std::vector<double> &d, size_t o = 0) { mrob::Mat61 x; for (int k = 0; k < 6; ++k) x(k) = d.at(o + k); return x; }
static mrob::Mat4 T4(const std::vector<double> &d, size_t o = 0) { ref::V6 x; for (int k = 0; k < 6; ++k) x(k) = d.at(o + k); return mrob::Mat4(ref::expT(x)); }
template <class T> static T vec(const std::vector<double> &d, size_t o = 0) { T x; for (int k = 0; k < x.size(); ++k) x(k) = d.at(o + k); return x; }
template <class T> static T sq(const std::vector<double> &d, size_t o) { T x; int n = x.rows(); for (int r = 0; r < n; ++r) for (int c = 0; c < n; ++c) x(r, c) = d.at(o + r * n + c); return x; }

static NP build_node(const Op &o) {
    auto mode = o.at(2) ? mrob::Node::ANCHOR : mrob::Node::STANDARD;
    switch (o.at(1)) {
    case ref::P2: { auto x = vec<mrob::Mat31>(o.d); rt::Sut g; return NP(new mrob::NodePose2d(x, mode)); }
    case ref::L2: { auto x = vec<mrob::Mat21>(o.d); rt::Sut g; return NP(new mrob::NodeLandmark2d(x, mode)); }
    case ref::P3: { mrob::Mat4 T = T4(o.d); rt::Sut g; if (o.at(3) & F_ALTCTOR) return NP(new mrob::NodePose3d(mrob::SE3(T), mode)); return NP(new mrob::NodePose3d(T, mode)); }
    case ref::L3: { auto x = vec<mrob::Mat31>(o.d); rt::Sut g; return NP(new mrob::NodeLandmark3d(x, mode)); }
    case ref::PL: { auto x = vec<mrob::Mat41>(o.d); rt::Sut g; return NP(new mrob::NodePlane4d(x, mode)); }
    }
    throw std::runtime_error("bad node op");
}
template <class F, class... Args> static FP mk(bool pr, Args &&... a) {
    rt::Sut g;
    if (pr) return FP(new Probed<F>(std::forward<Args>(a)...));
    return FP(new F(std::forward<Args>(a)...));
}
// a factor as a user would write it: a weighted sum of the positions of three nodes is known
struct LinComb : mrob::Factor {
    std::vector<double> c; mrob::MatX obs_, W_, J_; mrob::MatX1 r_; int D;
    LinComb(int dim, const std::vector<double> &d, std::vector<NP> n, RT robust) : Factor(dim, total(n), robust), D(dim) {
        obs_ = mrob::MatX::Zero(D, 1); W_ = mrob::MatX::Zero(D, D); r_ = mrob::MatX1::Zero(D); J_ = mrob::MatX::Zero(D, total(n)); c.resize(n.size());
        for (int k = 0; k < D; ++k) obs_(k, 0) = d.at(k);
        for (int k = 0; k < D * D; ++k) W_(k / D, k % D) = d.at(D + n.size() + k);
        std::vector<std::pair<mrob::factor_id_t, size_t>> o; for (size_t k = 0; k < n.size(); ++k) o.push_back({n[k]->get_id(), k}); std::sort(o.begin(), o.end());
        for (size_t k = 0; k < n.size(); ++k) { c[k] = d.at(D + o[k].second); neighbourNodes_.push_back(n[o[k].second]); }
    }
    static unsigned total(const std::vector<NP> &n) { unsigned s = 0; for (auto &x : n) s += x->get_dim(); return s; }
    void evaluate_residuals() override { r_ = -obs_; for (size_t k = 0; k < c.size(); ++k) r_ += c[k] * ref::position(D, M(neighbourNodes_[k]->get_state())); }
    void evaluate_jacobians() override {
        J_.setZero(); int col = 0;
        for (size_t k = 0; k < c.size(); ++k) { int N = neighbourNodes_[k]->get_dim(); auto x = neighbourNodes_[k]->get_state();
            if (x.cols() == 4) { ref::V3 t = x.topRightCorner(4, 1).topRows(3); J_.block(0, col, 3, 3) = -c[k] * ref::hat(t); J_.block(0, col + 3, 3, 3) = c[k] * ref::M3::Identity(); }
            else for (int j = 0; j < D; ++j) J_(j, col + j) = c[k];
            col += N; } }
    void evaluate_chi2() override { chi2_ = 0.5 * r_.dot(W_ * r_); }
    const Eigen::Ref<const mrob::MatX> get_obs() const override { return obs_; }
    const Eigen::Ref<const mrob::MatX1> get_residual() const override { return r_; }
    const Eigen::Ref<const mrob::MatX> get_information_matrix() const override { return W_; }
    const Eigen::Ref<const mrob::MatX> get_jacobian() const override { return J_; }
};
// a factor that is registered but has no residual of its own (an eigen factor)
struct Bare : mrob::Factor {
    mrob::MatX z_, J_; mrob::MatX1 r_;
    Bare(int dim, std::vector<NP> n) : Factor(dim, LinComb::total(n)) { z_ = mrob::MatX::Zero(dim, dim); J_ = mrob::MatX::Zero(dim, LinComb::total(n)); r_ = mrob::MatX1::Zero(dim); for (auto &x : n) neighbourNodes_.push_back(x); }
    void evaluate_residuals() override {} void evaluate_jacobians() override {} void evaluate_chi2() override {}
    const Eigen::Ref<const mrob::MatX> get_obs() const override { return z_; }
    const Eigen::Ref<const mrob::MatX1> get_residual() const override { return r_; }
    const Eigen::Ref<const mrob::MatX> get_information_matrix() const override { return z_; }
    const Eigen::Ref<const mrob::MatX> get_jacobian() const override { return J_; }
};
static FP build_fac(const Op &o, const std::vector<NP> &n) {
    NP a = n[0], b = n.size() > 1 ? n[1] : NP();
    RT r = (RT)o.at(2); bool alt = o.at(5) & F_ALTCTOR, init = o.at(5) & F_INIT, pr = o.at(5) & F_PROBE; const auto &d = o.d;
    switch (o.at(1)) {
    case ref::F1P2: return mk<mrob::Factor1Pose2d>(pr, vec<mrob::Mat31>(d), a, sq<mrob::Mat3>(d, 3), r);
    case ref::F2P2: return mk<mrob::Factor2Poses2d>(pr, vec<mrob::Mat31>(d), a, b, sq<mrob::Mat3>(d, 3), init, r);
    case ref::FODO: return mk<mrob::Factor2Poses2dOdom>(pr, vec<mrob::Mat31>(d), a, b, sq<mrob::Mat3>(d, 3), init, r);
    case ref::F1P1L2: return mk<mrob::Factor1Pose1Landmark2d>(pr, vec<mrob::Mat21>(d), a, b, sq<mrob::Mat2>(d, 2), init, r);
    case ref::F1P3: if (alt) return mk<mrob::Factor1Pose3d>(pr, mrob::SE3(T4(d)), a, sq<mrob::Mat6>(d, 6), r);
        return mk<mrob::Factor1Pose3d>(pr, T4(d), a, sq<mrob::Mat6>(d, 6), r);
    case ref::F2P3: if (alt) return mk<mrob::Factor2Poses3d>(pr, mrob::SE3(T4(d)), a, b, sq<mrob::Mat6>(d, 6), init, r);
        return mk<mrob::Factor2Poses3d>(pr, T4(d), a, b, sq<mrob::Mat6>(d, 6), init, r);
    case ref::F1P1L3: return mk<mrob::Factor1Pose1Landmark3d>(pr, vec<mrob::Mat31>(d), a, b, sq<mrob::Mat3>(d, 3), init, r);
    case ref::F1P1PL: return mk<mrob::Factor1Pose1Plane4d>(pr, vec<mrob::Mat41>(d), a, b, sq<mrob::Mat4>(d, 4), r);
    case ref::FPT2PL: { mrob::Mat1 w; w << d.at(9); return mk<mrob::Factor1PosePoint2Plane>(pr, vec<mrob::Mat31>(d, 0), vec<mrob::Mat31>(d, 3), vec<mrob::Mat31>(d, 6), a, w, r); }
    case ref::FLC2: case ref::FLC3: return mk<LinComb>(pr, ref::fdim((int)o.at(1)), d, n, r);
    }
    throw std::runtime_error("bad factor op");
}

#ifndef NO_PROTECTED
struct DenseAcc : mrob::FGraphSolveDense { using mrob::OptimizerDense::hessian_; using mrob::Optimizer::gradient_; };
#else
struct DenseAcc : mrob::FGraphSolveDense {};
#endif
template <class G> struct Impl : GraphI {
    std::unique_ptr<G> g;
    std::map<i64, NP> nodes; std::map<i64, FP> facs, eigs;
    std::map<i64, i64> nid, fid, eid;
    Impl() { rt::Sut s; g.reset(new G()); }
    ~Impl() override { facs.clear(); eigs.clear(); nodes.clear(); g.reset(); }
    i64 add_node(const Op &o) override {
        NP n; i64 id, t = o.at(0);
        if (nodes.count(t) && !nid.count(t) && !(o.at(3) & F_FRESH)) n = nodes[t];      // retry with the same object
        else { if (nodes.count(t) && !nid.count(t)) nodes.erase(t); n = build_node(o); nodes[t] = n; }
        { rt::Sut s; id = (i64)g->add_node(n); }
        nid[t] = id; return id;
    }
    i64 add_fac(const Op &o) override {
        std::vector<NP> n; for (int k = 0; k < ref::fnodes((int)o.at(1)); ++k) n.push_back(nodes.at(ref::ftag(o, k)));
        FP f; i64 id, t = o.at(0);
        if (facs.count(t) && !fid.count(t) && !(o.at(5) & F_FRESH)) f = facs[t];
        else { if (facs.count(t) && !fid.count(t)) facs.erase(t); f = build_fac(o, n); facs[t] = f; }
        { rt::Sut s; id = (i64)g->add_factor(f); }
        fid[t] = id; return id;
    }
    i64 make_fac_only(const Op &o) override {
        std::vector<NP> n; for (int k = 0; k < ref::fnodes((int)o.at(1)); ++k) n.push_back(nodes.at(ref::ftag(o, k)));
        facs[o.at(0)] = build_fac(o, n); return 0;
    }
    i64 add_eig(const Op &o) override {
        std::vector<NP> n; for (size_t k = 3; k < o.i.size(); ++k) n.push_back(nodes.at(o.at(k)));
        FP f; i64 id, t = o.at(0);
        if (eigs.count(t) && !eid.count(t) && !(o.at(2) & F_FRESH)) f = eigs[t];
        else { if (eigs.count(t) && !eid.count(t)) eigs.erase(t); { rt::Sut s; f = FP(new Bare((int)o.at(1), n)); } eigs[t] = f; }
        { rt::Sut s; id = (i64)g->add_eigen_factor(f); }
        eid[t] = id; return id;
    }
    i64 readd_eig(i64 t) override { FP f = eigs.at(t); rt::Sut s; return (i64)g->add_eigen_factor(f); }
    i64 eig_id(i64 t) override { return (i64)eigs.at(t)->get_id(); }
    i64 readd_node(i64 t) override { NP n = nodes.at(t); rt::Sut s; return (i64)g->add_node(n); }
    i64 readd_fac(i64 t) override { FP f = facs.at(t); rt::Sut s; return (i64)g->add_factor(f); }
    bool has_node(i64 t) const override { return nodes.count(t) > 0; }
    bool has_fac(i64 t) const override { return facs.count(t) > 0; }
    i64 node_id(i64 t) override { return (i64)nodes.at(t)->get_id(); }
    i64 fac_id(i64 t) override { return (i64)facs.at(t)->get_id(); }
    double chi2(bool e) override { return chi(g.get(), e); }
    static double chi(mrob::FGraphSolve *p, bool e) { rt::Sut s; return p->chi2(e); }
    static double chi(mrob::FGraphSolveDense *p, bool) { rt::Sut s; return p->calculate_error(); }
    int solve(int m, unsigned it, double l, double t) override { return sol(g.get(), m, it, l, t); }
    static int sol(mrob::FGraphSolve *p, int m, unsigned it, double l, double t) { rt::Sut s; p->solve(m ? mrob::FGraphSolve::LM : mrob::FGraphSolve::GN, it, l, t); return 0; }
    static int sol(mrob::FGraphSolveDense *p, int m, unsigned it, double l, double) {
        rt::Sut s; auto mm = m == 0 ? mrob::Optimizer::NEWTON_RAPHSON : m == 1 ? mrob::Optimizer::LEVENBERG_MARQUARDT_SPHER : mrob::Optimizer::LEVENBERG_MARQUARDT_ELLIP;
        return (int)p->mrob::Optimizer::solve(mm, it, l);
    }
    static std::vector<M> st(mrob::FGraphSolve *p) { std::vector<mrob::MatX> v; { rt::Sut s; v = p->get_estimated_state(); } std::vector<M> r; for (auto &x : v) r.push_back(M(x)); return r; }
    static std::vector<M> st(mrob::FGraphSolveDense *p) { std::vector<M> r; i64 n = (i64)p->number_nodes(); for (i64 k = 0; k < n; ++k) { mrob::MatX x; { rt::Sut s; x = p->get_node(k)->get_state(); } r.push_back(M(x)); } return r; }
    std::vector<M> states() override { return st(g.get()); }
    M node_state(i64 t) override { mrob::MatX x; { rt::Sut s; x = nodes.at(t)->get_state(); } return M(x); }
    M get_node_state(i64 id) override { mrob::MatX x; { rt::Sut s; x = g->get_node((mrob::factor_id_t)id)->get_state(); } return M(x); }
    double get_fac_chi2(i64 id) override { rt::Sut s; return g->get_factor((mrob::factor_id_t)id)->get_chi2(); }
    i64 node_degree(i64 t) override { return (i64)nodes.at(t)->get_neighbour_factors()->size(); }
    V fac_residual(i64 t) override { mrob::MatX1 r; { rt::Sut s; auto f = facs.at(t); f->evaluate_residuals(); r = f->get_residual(); } return V(r); }
    V fac_stored(i64 t) override { mrob::MatX1 r; { rt::Sut s; r = facs.at(t)->get_residual(); } return V(r); }
    void set_state(i64 t, const M &x) override { mrob::MatX y = x; rt::Sut s; nodes.at(t)->set_state(y); }
    void node_update(i64 t, const V &dx, bool aux) override {
        mrob::MatX1 d = dx; NP n = nodes.at(t); rt::Sut s;
        if (aux) { n->set_auxiliary_state(n->get_state()); n->update_from_auxiliary(d); } else n->update(d);
    }
    static bool ds(mrob::FGraphSolve *, V &, M &) { return false; }
#ifdef NO_PROTECTED
    static bool ds(DenseAcc *, V &, M &) { return false; }
#else
    static bool ds(DenseAcc *p, V &g, M &h) { { rt::Sut s; p->calculate_gradient_hessian(); } g = p->gradient_; h = p->hessian_; return true; }
#endif
    bool dense_system(V &g_, M &h) override { return ds(g.get(), g_, h); }
    void drop_node(i64 t) override { nodes.erase(t); }
    void drop_fac(i64 t) override { facs.erase(t); eigs.erase(t); }
    void drop_handles() override { facs.clear(); eigs.clear(); nodes.clear(); }
    void drop_graph() override { rt::Sut s; g.reset(); }
    bool graph_alive() const override { return !!g; }
    static mrob::FGraphSolve *S(mrob::FGraphSolve *p) { return p; }
    static mrob::FGraphSolve *S(mrob::FGraphSolveDense *) { throw std::runtime_error("dense"); }
    M A() override { mrob::SMatCol m; { rt::Sut s; m = S(g.get())->get_adjacency_matrix(); } return M(m); }
    M W() override { mrob::SMatCol m; { rt::Sut s; m = S(g.get())->get_W_matrix(); } return M(m); }
    M L() override { mrob::SMatCol m; { rt::Sut s; m = S(g.get())->get_information_matrix(); } return M(m); }
    V b() override { mrob::MatX1 v; { rt::Sut s; v = S(g.get())->get_vector_b(); } return V(v); }
    V chi2_array() override { mrob::MatX1 v; { rt::Sut s; v = S(g.get())->get_chi2_array(); } return V(v); }
    i64 n_nodes() override { return (i64)g->number_nodes(); }
    i64 n_facs() override { return (i64)g->number_factors(); }
    i64 dim_state() override { return (i64)g->get_dimension_state(); }
    i64 dim_obs() override { return (i64)g->get_dimension_obs(); }
    void print(bool f) override { rt::Sut s; g->print(f); }
};
std::unique_ptr<GraphI> make_graph(int k) {
    if (k == DENSE) return std::unique_ptr<GraphI>(new Impl<DenseAcc>());
    return std::unique_ptr<GraphI>(new Impl<mrob::FGraphSolve>());
}
}
