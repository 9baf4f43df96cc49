#include "session.hpp"
using namespace ref;
bool finite(const M &m) { for (int i = 0; i < m.size(); ++i) if (!std::isfinite(m.data()[i])) return false; return true; }
std::string mstr(const M &m) { std::string s = "["; for (int r = 0; r < m.rows(); ++r) { for (int c = 0; c < m.cols(); ++c) s += fmt("%s%.9g", c ? " " : "", m(r, c)); if (r + 1 < m.rows()) s += "; "; } return s + "]"; }
Node to_node(const Op &o) {
    Node n; n.tag = o.at(0); n.kind = (int)o.at(1); n.anchor = o.at(2);
    V x(ndim(n.kind)); for (int k = 0; k < x.size(); ++k) x(k) = o.fd(k);
    if (n.kind == P3) n.x = expT(V6(x)); else n.x = x;
    if (n.kind == PL) n.x.topRows(3) /= n.x.topRows(3).norm();
    if (n.kind == P2) n.x(2) = wrap(n.x(2));
    return n;
}
Fac to_fac(const Op &o) {
    Fac f; f.tag = o.at(0); f.kind = (int)o.at(1); f.robust = (int)o.at(2); for (int k = 0; k < fnodes(f.kind); ++k) f.nodes.push_back(ftag(o, k));
    int D = fdim(f.kind), z = fobs(f.kind); f.obs = V(z); for (int k = 0; k < z; ++k) f.obs(k) = o.fd(k);
    f.W = M(D, D); for (int r = 0; r < D; ++r) for (int c = 0; c < D; ++c) f.W(r, c) = o.fd(z + r * D + c);
    return f;
}
double state_diff(int k, const M &a, const M &b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
    M d = a - b; if (k == P2) d(2) = wrap(d(2));
    double m = 0; for (int i = 0; i < d.size(); ++i) { double v = std::fabs(d.data()[i]); if (!(v <= m)) m = v; if (std::isnan(v)) return 1e300; }
    return m;
}
bool Session::can(const Op &o) const {
    if (o.k == "node") return !fop.count(o.at(0)) && o.at(1) >= 0 && o.at(1) <= PL;
    if (o.k == "eig") { if (o.i.size() < 4 || fop.count(o.at(0)) || o.at(1) < 1) return false; for (size_t k = 3; k < o.i.size(); ++k) if (!mirror.idx.count(o.at(k))) return false; return true; }
    if (o.k != "fac" || fop.count(o.at(0))) return false;
    for (int k = 0; k < fnodes((int)o.at(1)); ++k) if (!mirror.idx.count(ftag(o, k))) return false;
    if (o.at(1) == FODO && mirror.idx.at(o.at(3)) > mirror.idx.at(o.at(4))) return false;   // documented precondition
    return true;
}
void Session::mirror_add(const Op &o) {
    fop[o.at(0)] = o;
    if (o.k == "node") { Node n = to_node(o); mirror.add(n); ntags.push_back(n.tag); }
    else { mirror.add(to_fac(o)); ftags.push_back(o.at(0)); }
}
bool Session::add(const Op &o) {
    if (!can(o)) return false;
    if (o.k == "eig") {
        i64 id = g->add_eig(o); rt::Hold hold; fop[o.at(0)] = o; etags.push_back(o.at(0)); eigdim += o.at(1);
        if (id != (i64)etags.size() - 1) fail("id", fmt("add_eigen_factor returned id %lld for eigen factor number %zu", (long long)id, etags.size() - 1));
        cx.st.add("eigen_factors");
    } else if (o.k == "node") {
        i64 id = g->add_node(o); rt::Hold hold; mirror_add(o);
        if (id != (i64)ntags.size() - 1) fail("id", fmt("add_node returned id %lld for node number %zu", (long long)id, ntags.size() - 1));
        Node &n = mirror.n(o.at(0)); n.x = g->node_state(o.at(0));
        if (n.anchor) anchor0[n.tag] = n.x;
    } else {
        i64 id = g->add_fac(o); rt::Hold hold; mirror_add(o);
        if (id != (i64)ftags.size() - 1) fail("id", fmt("add_factor returned id %lld for factor number %zu", (long long)id, ftags.size() - 1));
    }
    return true;
}
std::vector<M> Session::states() { return g->states(); }
void Session::sync() {
    auto s = states();
    if (s.size() != ntags.size()) fail("state-count", fmt("%zu states reported for %zu nodes", s.size(), ntags.size()));
    for (size_t k = 0; k < s.size(); ++k) mirror.nodes[k].x = s[k];
}
double Session::cond(int *dim) const {
    int S = mirror.state_dim(); if (dim) *dim = S;
    if (!S || mirror.facs.empty() || !etags.empty()) return 0;      // no solver handles eigen factors
    for (auto &n : mirror.nodes) if (!finite(n.x)) return 0;
    M L; V b; mirror.normal(L, b);
    if (!finite(L) || !finite(b)) return 0;
    if (S > 150) {      // smallest eigenvalue by inverse iteration
        Eigen::LLT<M> f(L); if (f.info() != Eigen::Success) return 0;
        V x = V::Ones(S), y; for (int k = 0; k < S; ++k) x(k) += 0.3 * std::sin(7.0 * k); x /= x.norm(); y = x; double lo = 0, hi = 0;
        for (int k = 0; k < 60; ++k) { x = f.solve(x); lo = 1 / x.norm(); x /= x.norm(); y = L * y; hi = y.norm(); y /= hi; }
        return hi > 0 && lo > 0 && std::isfinite(lo) ? 0.5 * lo / hi : 0;
    }
    Eigen::SelfAdjointEigenSolver<M> e(L, Eigen::EigenvaluesOnly);
    double lo = e.eigenvalues()(0), hi = e.eigenvalues()(S - 1);
    return hi > 0 && lo > 0 ? lo / hi : 0;
}
void Session::solve(int m, unsigned it, double l, double t) { ++cx.solves; ++nsolves; cx.st.add("solves"); g->solve(m, it, l, t); }
void Session::digest_states() { for (auto &s : states()) for (int k = 0; k < s.size(); ++k) cx.dg.d(s.data()[k]); }
void Session::check_anchors(const char *when) {
    auto s = states();
    for (size_t k = 0; k < s.size() && k < ntags.size(); ++k) if (anchor0.count(ntags[k])) {
        const M &a = anchor0[ntags[k]];
        if (a.size() != s[k].size() || memcmp(a.data(), s[k].data(), sizeof(double) * a.size()))
            fail("anchor-moved", fmt("anchored node %zu moved %s: was %s is %s", k, when, mstr(a).c_str(), mstr(s[k]).c_str()));
    }
}
void Session::check_valid(const char *when, double tol) {
    auto s = states();
    for (size_t k = 0; k < s.size() && k < ntags.size(); ++k) {
        int kind = mirror.nodes[k].kind; const M &x = s[k];
        if (!finite(x)) fail("state-nonfinite", fmt("node %zu is not finite %s: %s", k, when, mstr(x).c_str()));
        if (kind == P3) {
            M3 R = x.topLeftCorner(3, 3); double e = (R * R.transpose() - M3::Identity()).cwiseAbs().maxCoeff();
            if (!(e < tol) || !(R.determinant() > 0)) fail("state-invalid", fmt("node %zu rotation off by %.3g %s: %s", k, e, when, mstr(x).c_str()));
            if (x(3, 0) != 0 || x(3, 1) != 0 || x(3, 2) != 0 || x(3, 3) != 1) fail("state-invalid", fmt("node %zu bottom row %s: %s", k, when, mstr(x).c_str()));
        } else if (kind == P2) { if (!(std::fabs(x(2)) <= M_PI + 1e-12)) fail("state-invalid", fmt("node %zu heading %.17g outside half a turn %s", k, x(2), when)); }
        else if (kind == PL) { double n = x.topRows(3).norm(); if (!(std::fabs(n - 1) < tol)) fail("state-invalid", fmt("node %zu plane normal has length %.17g %s", k, n, when)); }
    }
}
void Session::check_counts(const char *when) {
    if (g->n_nodes() != (i64)ntags.size()) fail("counts", fmt("%lld nodes reported, %zu added %s", (long long)g->n_nodes(), ntags.size(), when));
    if (g->n_facs() != (i64)ftags.size()) fail("counts", fmt("%lld factors reported, %zu added %s", (long long)g->n_facs(), ftags.size(), when));
    if (g->dim_state() != mirror.state_dim()) fail("counts", fmt("state dimension %lld reported, %d expected %s", (long long)g->dim_state(), mirror.state_dim(), when));
    if (g->dim_obs() != mirror.obs_dim() + eigdim) fail("counts", fmt("observation dimension %lld reported, %d expected %s", (long long)g->dim_obs(), mirror.obs_dim() + (int)eigdim, when));
}
