#include "planes.hpp"
namespace planes {
M4 to4(const mrob::SE3 &x) { return M4(x.T()); }
PSess::PSess(Ctx &c) : cx(c) { rt::Sut s; reg.reset(new PReg()); }
PSess::~PSess() { pl.clear(); reg.reset(); }
std::vector<M4> PSess::traj() { std::vector<M4> v; for (int t = 0; t < T; ++t) { rt::Sut s; v.push_back(to4(reg->get_trajectory(t))); } return v; }
i64 PSess::count() const { i64 n = 0; for (auto &p : pl) if (p.second.inreg) for (auto &v : p.second.pts) n += v.size(); return n; }
int PSess::nplanes() const { int n = 0; for (auto &p : pl) n += p.second.inreg; return n; }
bool PSess::seen_at(int t) const { for (auto &p : pl) if (p.second.inreg && !p.second.pts[t].empty()) return true; return false; }
M4 PSess::scatter(const std::vector<V3> &p) { M4 S = M4::Zero(); for (auto &x : p) { Eigen::Vector4d h; h << x, 1; S += h * h.transpose(); } return S; }
static double lmin(const M4 &Q) { Eigen::SelfAdjointEigenSolver<M4> e(Q); return e.eigenvalues()(0); }
double PSess::err(const std::vector<M4> &X, double *scale) const {
    double e = 0, sc = 1e-12;
    for (auto &p : pl) if (p.second.inreg) { M4 Q = M4::Zero(); for (int t = 0; t < T; ++t) Q += X[t] * scatter(p.second.pts[t]) * X[t].transpose(); e += lmin(Q); sc += Q.trace(); }
    if (scale) *scale = sc; return e;
}
double PSess::eval() {
    double e; auto X = traj(); { rt::Sut s; e = reg->get_current_error(); }
    for (auto &p : pl) if (p.second.inreg) { Pl &q = p.second; q.est = true; q.Q.clear(); q.acc = M4::Zero(); for (int t = 0; t < T; ++t) { q.Q.push_back(X[t] * scatter(q.pts[t]) * X[t].transpose()); q.acc += q.Q.back(); } }
    return e;
}
static bool okm(const M4 &x) { for (int k = 0; k < 16; ++k) if (!std::isfinite(x.data()[k])) return false; return true; }
void PSess::check_error(const char *when) {
    auto X = traj(); double sc, w = err(X, &sc), g = eval(); for (auto &x : X) if (!okm(x)) return;
    if (!(std::fabs(g - w) <= 1e-9 * sc)) fail("plane-error", fmt("registration error %.12g, the points held give %.12g %s", g, w, when));
    for (auto &p : pl) if (p.second.inreg) {
        Eigen::Vector4d pi; double e; { rt::Sut s; pi = p.second.obj->get_plane(); e = p.second.obj->get_error(); } double tr = p.second.acc.trace() + 1e-12;
        if (!(std::fabs(e - lmin(p.second.acc)) <= 1e-9 * tr)) fail("plane-estimate", fmt("plane %lld reports error %.12g, its points give %.12g %s", (long long)p.first, e, lmin(p.second.acc), when));
        if (!(std::fabs(pi.norm() - 1) < 1e-9)) fail("plane-estimate", fmt("plane %lld has norm %.12g %s", (long long)p.first, pi.norm(), when));
        if (!((p.second.acc * pi - e * pi).norm() <= 1e-8 * tr)) fail("plane-estimate", fmt("plane %lld is not the plane of its points (residual %.3g, scale %.3g) %s", (long long)p.first, (p.second.acc * pi - e * pi).norm(), tr, when));
    }
    cx.st.add("evaluations");
}
static M4 gen(int i) { M4 G = M4::Zero(); if (i < 3) { V3 e = V3::Zero(); e(i) = 1; G.topLeftCorner<3, 3>() = ref::hat(e); } else G(i - 3, 3) = 1; return G; }
void PSess::check_gradient(const char *when) {
    if (T < 2) return; auto X = traj(); for (auto &x : X) if (!okm(x)) return;
    { rt::Sut s; reg->calculate_gradient_hessian(); }
    V g, total = V::Zero(6); M h, H = M::Zero(6, 6); double sc = 1e-12, tau = 1.0 / (T - 1); static M4 G[6]; for (int i = 0; i < 6; ++i) G[i] = gen(i);
    for (auto &p : pl) if (p.second.inreg) {
        Pl &q = p.second; q.est = true; q.Q.clear(); q.acc = M4::Zero(); for (int t = 0; t < T; ++t) { q.Q.push_back(X[t] * scatter(q.pts[t]) * X[t].transpose()); q.acc += q.Q.back(); }
        Eigen::Vector4d pi; { rt::Sut s; pi = q.obj->get_plane(); } double tr = q.acc.trace() + 1e-12; sc += tr;
        Eigen::SelfAdjointEigenSolver<M4> es(q.acc); double lam = es.eigenvalues()(0);
        if (!((q.acc * pi - lam * pi).norm() <= 1e-8 * tr)) fail("plane-estimate", fmt("plane %lld is stale while its gradient is calculated %s", (long long)p.first, when));
        for (int t = 1; t < T; ++t) {
            V6 gt, gl; M6 ht, hl; const M4 &Q = q.Q[t];
            for (int i = 0; i < 6; ++i) { gt(i) = 2 * pi.dot(G[i] * Q * pi); for (int j = 0; j < 6; ++j) { M4 B = 0.5 * (G[i] * G[j] + G[j] * G[i]) * Q + G[i] * Q * G[j].transpose(); ht(i, j) = pi.dot((B + B.transpose()) * pi); } }
            { rt::Sut s; gl = q.obj->calculate_gradient(t); hl = q.obj->calculate_hessian(t); }
            double tq = Q.trace() + 1e-9 * tr;
            for (int i = 0; i < 6; ++i) if (!(std::fabs(gl(i) - gt(i)) <= 1e-9 * tq)) fail("plane-gradient", fmt("plane %lld pose %d gradient(%d) %.12g, derivative of its error %.12g %s", (long long)p.first, t, i, gl(i), gt(i), when));
            for (int i = 0; i < 6; ++i) for (int j = i; j < 6; ++j) if (!(std::fabs(hl(i, j) - ht(i, j)) <= 1e-9 * tq)) fail("plane-hessian", fmt("plane %lld pose %d Hessian(%d,%d) %.12g, second derivative %.12g %s", (long long)p.first, t, i, j, hl(i, j), ht(i, j), when));
            total += tau * t * gt; H += tau * t * ht;
        }
    }
    if (!reg->system(g, h)) return; if (g.size() != 6 || h.rows() != 6 || h.cols() != 6) fail("plane-gradient", "system of the wrong size");
    for (int i = 0; i < 6; ++i) if (!(std::fabs(g(i) - total(i)) <= 1e-9 * sc)) fail("plane-gradient", fmt("registration gradient(%d) %.12g, sum over planes and poses %.12g %s", i, g(i), total(i), when));
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) if (!(std::fabs(h(i, j) - H(i, j)) <= 1e-9 * sc)) fail("plane-hessian", fmt("registration Hessian(%d,%d) %.12g, sum over planes and poses %.12g %s", i, j, h(i, j), H(i, j), when));
    cx.st.add("gradients");
}
static bool lessv(const V3 &a, const V3 &b) { for (int k = 0; k < 3; ++k) if (a(k) != b(k)) return a(k) < b(k); return false; }
void PSess::check_counts(const char *when, bool clouds) {
    i64 n; { rt::Sut s; n = (i64)reg->calculate_total_number_points(); } if (n != count()) fail("plane-count", fmt("registration counts %lld points, %lld were added %s", (long long)n, (long long)count(), when));
    if ((int)reg->get_all_planes().size() != nplanes()) fail("plane-count", fmt("registration holds %d planes, %d were added %s", (int)reg->get_all_planes().size(), nplanes(), when));
    if ((int)reg->get_number_poses() != T) fail("plane-count", fmt("registration reports %d poses of %d %s", (int)reg->get_number_poses(), T, when));
    if ((int)reg->get_number_planes() < nplanes()) fail("plane-count", fmt("registration reports %d planes of %d %s", (int)reg->get_number_planes(), nplanes(), when));
    for (auto &p : pl) { i64 m = 0; for (int t = 0; t < T; ++t) { m += p.second.pts[t].size(); i64 k = (i64)p.second.obj->get_number_points(t); if (k != (i64)p.second.pts[t].size()) fail("plane-count", fmt("plane %lld counts %lld points at pose %d of %zu %s", (long long)p.first, (long long)k, t, p.second.pts[t].size(), when)); } i64 k = (i64)p.second.obj->get_total_number_points(); if (k != m) fail("plane-count", fmt("plane %lld counts %lld points of %lld %s", (long long)p.first, (long long)k, (long long)m, when)); }
    if (!clouds) return;
    for (int t = 0; t < T; ++t) {
        std::vector<mrob::Mat31> c; { rt::Sut s; c = reg->get_point_cloud(t); } std::vector<V3> a, b; for (auto &x : c) a.push_back(V3(x)); for (auto &p : pl) if (p.second.inreg) for (auto &x : p.second.pts[t]) b.push_back(x);
        if (a.size() != b.size()) fail("plane-cloud", fmt("cloud of pose %d has %zu points of %zu %s", t, a.size(), b.size(), when));
        std::sort(a.begin(), a.end(), lessv); std::sort(b.begin(), b.end(), lessv); for (size_t k = 0; k < a.size(); ++k) if (!(a[k] == b[k])) fail("plane-cloud", fmt("cloud of pose %d holds a point that was never added %s", t, when));
    }
}
void PSess::check_traj(const char *when) {
    auto X = traj(); for (int t = 0; t < T; ++t) {
        if (!okm(X[t])) fail("trajectory-nonfinite", fmt("pose %d is not finite %s", t, when));
        M3 R = X[t].topLeftCorner<3, 3>(); if (!((R.transpose() * R - M3::Identity()).cwiseAbs().maxCoeff() < 1e-6 && R.determinant() > 0) || X[t](3, 0) != 0 || X[t](3, 1) != 0 || X[t](3, 2) != 0 || X[t](3, 3) != 1) fail("trajectory-invalid", fmt("pose %d is not a rigid transformation %s", t, when));
        if (t == 0 && !(X[0] == M4::Identity())) fail("first-pose-moved", fmt("the first pose is not the identity %s", when)); }
}
void PSess::digest() { for (auto &x : traj()) for (int k = 0; k < 16; ++k) cx.dg.d(x.data()[k]); cx.dg.u(count()); if (nplanes()) cx.dg.d(eval()); }
std::vector<double> PSess::evaluate() { std::vector<double> r; { rt::Sut s; r = reg->print_evaluate(); } rt::Hold h; std::vector<double> c(r); return c; }
void PSess::drop_reg() { if (!reg) return; last = traj(); rt::Sut s; reg.reset(); }
bool PSess::read_orphans() {
    if (reg || !T) return false; bool any = false; for (auto &x : last) if (!okm(x)) return false;
    for (auto &p : pl) if (p.second.inreg) {
        M4 Q = M4::Zero(); for (int t = 0; t < T; ++t) Q += last[t] * scatter(p.second.pts[t]) * last[t].transpose();
        double e; { rt::Sut s; e = p.second.obj->estimate_plane(); } any = true;
        if (!(std::fabs(e - lmin(Q)) <= 1e-9 * (Q.trace() + 1e-12))) fail("handle-unreadable", fmt("plane %lld reports error %.12g after its registration is gone, its points and the last trajectory give %.12g", (long long)p.first, e, lmin(Q)));
        cx.dg.d(e);
    }
    return any;
}
bool PSess::exec(const Op &o) {
    const std::string &k = o.k; i64 id = o.at(0);
    if (k == "psize") { int n = (int)o.at(0), np = (int)o.at(1); if (n < 1 || n > 64) return false; { rt::Sut s; reg->set_number_planes_and_poses(np, n); } rt::Hold h; T = n; pl.clear(); return true; }
    if (!T) return false;
    if (k == "mkp") { if (pl.count(id)) return false; Pl p; p.pts.resize(T); { rt::Sut s; p.obj.reset(new mrob::Plane(T)); } rt::Hold h; pl[id] = p; return true; }
    if (k == "addp") {
        auto it = pl.find(id); if (it != pl.end() && it->second.inreg && !o.at(1)) return false;
        if (it == pl.end()) { { rt::Sut s; reg->add_new_plane(id); } rt::Hold h; Pl p; p.pts.resize(T); p.inreg = true; p.obj = reg->get_all_planes().at(id); pl[id] = p; }
        else if (it->second.inreg) { rt::Sut s; reg->add_new_plane(id); }                    // re-sent: must change nothing
        else { { rt::Sut s; reg->add_plane(id, it->second.obj); } it->second.inreg = true; }
        return true;
    }
    if (k == "pt") {
        auto it = pl.find(id); int t = (int)o.at(1); if (it == pl.end() || t < 0) return false; mrob::Mat31 x(o.fd(0), o.fd(1), o.fd(2));
        if (it->second.inreg && !o.at(2)) { rt::Sut s; reg->plane_push_back_point(id, t, x); } else { rt::Sut s; it->second.obj->push_back_point(x, t); }
        rt::Hold h; if (t < T) it->second.pts[t].push_back(V3(x)); return true;
    }
    if (k == "ppt") {       // several points of one plane and pose
        auto it = pl.find(id); int t = (int)o.at(1); if (it == pl.end() || t < 0) return false;
        for (size_t j = 0; j + 2 < o.d.size(); j += 3) { Op q("pt", {id, t, o.at(2)}, {o.d[j], o.d[j + 1], o.d[j + 2]}); exec(q); } return true;
    }
    if (k == "badpt") { bool threw = false; mrob::Mat31 x(1, 2, 3); i64 bad = id; while (pl.count(bad) && pl[bad].inreg) ++bad; try { rt::Sut s; reg->plane_push_back_point(bad, 0, x); } catch (std::out_of_range &) { threw = true; } if (!threw) fail("unknown-plane", "adding a point to an unknown plane raised no error"); return true; }
    if (k == "setlast") { V6 x; for (int j = 0; j < 6; ++j) x(j) = o.fd(j); { mrob::Mat61 y = x; rt::Sut s; mrob::SE3 L(y); reg->set_last_pose(L); } return true; }
    if (k == "preset") { rt::Sut s; reg->reset_solution(); return true; }
    if (k == "clr") { auto it = pl.find(id); if (it == pl.end()) return false; { rt::Sut s; it->second.obj->clear_points(); } for (auto &v : it->second.pts) v.clear(); it->second.est = false; return true; }
    if (k == "prst") { auto it = pl.find(id); if (it == pl.end()) return false; { rt::Sut s; it->second.obj->reset(); } it->second.est = false; return true; }
    if (k == "psolve") { { rt::Sut s; reg->solve((mrob::PlaneRegistration::SolveMode)o.at(0), o.at(1)); } for (auto &p : pl) p.second.est = false; ++cx.solves; cx.st.add("solves"); return true; }
    if (k == "peval") { eval(); return true; }
    if (k == "pevalp") { if (!nplanes()) return false; evaluate(); return true; }
    if (k == "pprint") { rt::Sut s; reg->print(o.at(0)); return true; }
    if (k == "inc") {       // incremental error for one pose
        auto it = pl.find(id); int t = (int)o.at(1); if (it == pl.end() || !it->second.inreg || !it->second.est || t >= T) return false; Pl &p = it->second; auto X = traj(); M4 Qt = X[t] * scatter(p.pts[t]) * X[t].transpose(), A = p.acc - p.Q[t] + Qt; double tr = A.trace() + 1e-12, g, w = lmin(A);
        if (o.at(2)) { { rt::Sut s; g = p.obj->estimate_plane_incrementally(t); } p.acc = A; p.Q[t] = Qt; } else { rt::Sut s; g = p.obj->get_error_incremental(t); }
        if (okm(X[t]) && !(std::fabs(g - w) <= 1e-9 * tr)) fail("plane-incremental", fmt("plane %lld incremental error for pose %d is %.12g, its points give %.12g", (long long)id, t, g, w));
        if (o.at(2) && okm(X[t])) { Eigen::Vector4d pi; { rt::Sut s; pi = p.obj->get_plane(); } if (!((A * pi - w * pi).norm() <= 1e-8 * tr)) fail("plane-incremental", fmt("plane %lld incremental estimate is not the plane of its points", (long long)id)); }
        cx.st.add("incremental"); return true;
    }
    return false;
}
PCfg random_cfg(Rng &r, int size) {
    PCfg c; c.poses = r.i(2, 3 + 2 * size); c.nplanes = r.i(1, 4 + 2 * size); c.ppp = r.i(1, 6 + 2 * size); c.noise = r.p(0.4) ? 0 : std::pow(10, r.u(-4, -1)); c.vis = r.p(0.4) ? 1 : r.u(0.3, 1); c.rot = r.u(0, 1.5); c.tr = r.u(0, 2);
    if (r.p(0.03)) c.poses = 1; else if (r.p(0.08)) { c.poses = r.p(0.1) ? r.i(28, 140) : r.i(8, 28); c.nplanes = std::min(c.nplanes, 4); c.ppp = std::min(c.ppp, 3); }      // a long trajectory
    else if (r.p(0.01)) { c.nplanes = r.i(10, 60); c.ppp = std::min(c.ppp, 3); c.poses = std::min(c.poses, 4); }      // many surfaces
    return c;
}
PW make_world(Rng &r, const PCfg &c) {
    PW w; w.dense = c.dense; w.poses = c.poses; w.nplanes = c.nplanes; w.noise = c.noise; V3 a(r.n(), r.n(), r.n()), b(r.n(), r.n(), r.n()); a *= c.rot / std::max(1e-9, a.norm()); b *= c.tr / std::max(1e-9, b.norm()); w.xi << a, b;
    for (int t = 0; t < c.poses; ++t) w.truth.push_back(ref::expT(V6(w.xi * (c.poses > 1 ? (double)t / (c.poses - 1) : 0))));
    for (int p = 0; p < c.nplanes; ++p) {
        V3 n(r.n(), r.n(), r.n()); n /= n.norm(); if (p < 3 && r.p(0.8)) { n = V3::Zero(); n(p) = 1; V3 e(0.3 * r.n(), 0.3 * r.n(), 0.3 * r.n()); n += e; n /= n.norm(); }
        V3 u = n.cross(std::fabs(n(0)) < 0.8 ? V3(1, 0, 0) : V3(0, 1, 0)); u /= u.norm(); V3 v = n.cross(u); V3 o(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)); std::vector<V3> q;
        for (int k = 0; k < c.ppp; ++k) q.push_back(o + u * r.u(-2, 2) + v * r.u(-2, 2)); w.pts.push_back(q);
        std::vector<char> vis; for (int t = 0; t < c.poses; ++t) vis.push_back(r.p(c.vis)); w.vis.push_back(vis);
    }
    return w;
}
Op pt_op(i64 id, int t, const V3 &p, int route) { return Op("pt", {id, t, route}, {p(0), p(1), p(2)}); }
Op setlast_op(const V6 &x) { Op o("setlast"); for (int k = 0; k < 6; ++k) o.d.push_back(x(k)); return o; }
std::vector<Op> points(Rng &r, const PW &w, int order, Stats &st) {
    std::vector<std::pair<double, Op>> v; double now = 0; int many = 0;
    for (int t = 0; t < w.poses; ++t) { M4 I = ref::invT(w.truth[t]); for (int p = 0; p < w.nplanes; ++p) if (w.vis[p][t]) {
        Op o("ppt", {p, t, 0}); now += r.u(1, 10); double at = now + (order ? r.u(0, order == 1 ? 60 : 1000) : 0);
        auto see = [&](const V3 &x) { V3 y = I.topLeftCorner<3, 3>() * x + I.topRightCorner<3, 1>(); for (int k = 0; k < 3; ++k) o.d.push_back(y(k) + w.noise * r.n()); };
        for (auto &x : w.pts[p]) see(x);
        // a dense sensor: hundreds or thousands of points on one surface
        if (w.dense && many < 8000 && r.p(0.3)) { int n = (int)std::pow(10, r.u(1.5, 3.5)); many += n; st.add("dense_scans"); auto &q = w.pts[p]; while (n-- > 0) { V3 x = V3::Zero(); double s = 0; for (auto &y : q) { double g = r.u(0.05, 1); x += g * y; s += g; } see(V3(x / s + 1.5 * (q[r.i((int)q.size())] - q[0]))); } }
        // the sensor's message may be cut into several packets that arrive separately
        while (order && o.d.size() > 3 && r.p(0.4)) { Op q("ppt", {p, t, r.i(2)}); size_t n = 3 * r.i(1, (int)o.d.size() / 3 - 1); q.d.assign(o.d.begin(), o.d.begin() + n); o.d.erase(o.d.begin(), o.d.begin() + n); v.push_back({now + r.u(0, 400), q}); st.add("packets_split"); }
        v.push_back({at, o}); } }
    std::vector<std::pair<double, Op>> s(v); std::stable_sort(s.begin(), s.end(), [](auto &a, auto &b) { return a.first < b.first; }); std::vector<Op> out; for (size_t k = 0; k < s.size(); ++k) { if (s[k].first != v[k].first) st.add("net_reordered"); out.push_back(s[k].second); } st.sim_ms += now; return out;
}
}
