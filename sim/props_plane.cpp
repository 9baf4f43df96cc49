// C14 C15 C16
#include "planes.hpp"
#include "common.hpp"
using namespace planes;
static const char *PLN = "PlaneRegistration, Plane, Optimizer, PCRegistration::arun, TimeProfiling, SE3/SO3 (real code)";
static bool same(const M4 &a, const M4 &b) { return !memcmp(a.data(), b.data(), sizeof(double) * 16); }
static V6 rxi(Rng &r, double a, double b) { V6 x; for (int k = 0; k < 3; ++k) x(k) = r.u(-a, a); for (int k = 3; k < 6; ++k) x(k) = r.u(-b, b); return x; }
static Op rsolve(Rng &r, bool any) { static const int all[] = {INITIALIZE, NAG, ALLPOSES, GN, LM_S, LM_E, CLAMPED, GRADIENT}, lm[] = {LM_S, LM_E}; int m = any ? all[r.i(8)] : lm[r.i(2)]; return Op("psolve", {m, m == NAG ? 1 : r.p(0.5)}); }
// ------------------------------------------------------------------ C14
static Trace history(Rng &r, const PW &w, Stats &st, double pq, bool faults) {
    Trace t; t.push_back(Op("psize", {w.poses, r.i(0, w.nplanes)})); std::set<i64> made; auto v = points(r, w, r.i(3), st); std::vector<i64> ids;
    auto extra = [&]() {
        int k = r.i(faults ? 15 : 14); i64 id = ids.empty() ? 0 : ids[r.i((int)ids.size())];
        if (k < 3) t.push_back(Op("peval")); else if (k < 5) t.push_back(Op("grad")); else if (k == 5) t.push_back(rsolve(r, true)); else if (k == 6) t.push_back(setlast_op(rxi(r, 1, 2))); else if (k == 7) t.push_back(Op("preset"));
        else if (k == 8 && r.p(0.4)) t.push_back(Op("clr", {id})); else if (k == 9) t.push_back(Op("prst", {id})); else if (k < 12) t.push_back(Op("inc", {id, r.i(w.poses), r.p(0.5)})); else if (k == 12) t.push_back(Op(r.p(0.5) ? "pevalp" : "pprint", {r.i(2)})); else if (k == 13) t.push_back(Op(r.p(0.5) ? "badpt" : "cloud", {id}));
    };
    for (auto &o : v) {
        i64 id = o.at(0); if (made.insert(id).second) { ids.push_back(id); if (r.p(0.3)) { t.push_back(Op("mkp", {id})); if (r.p(0.5)) { t.push_back(o); t.push_back(Op("addp", {id})); continue; } t.push_back(Op("addp", {id})); } else t.push_back(Op("addp", {id})); }
        if (r.p(0.05)) t.push_back(Op("addp", {id, 1})); if (r.p(0.1)) { t.push_back(pt_op(id, w.poses + r.i(3), V3(1, 2, 3), r.i(2))); st.add("out_of_range_pose"); }
        t.push_back(o); if (r.p(0.06)) { t.push_back(o); st.add("points_repeated"); } while (r.p(pq)) extra();
    }
    for (int k = 0; k < 3; ++k) extra(); return t;
}
static Trace gen14(Rng &r, int size, Stats &st) { PCfg c = random_cfg(r, size); c.dense = r.p(0.05); PW w = make_world(r, c); Trace t = history(r, w, st, r.u(0.1, 0.6), false); if (r.p(0.1)) { PW w2 = make_world(r, random_cfg(r, size)); Trace u = history(r, w2, st, 0.3, false); t.insert(t.end(), u.begin(), u.end()); } t.push_back(Op("grad")); t.push_back(Op("cloud", {0})); return t; }
static void run14(const Trace &t, Ctx &cx) {
    PSess a(cx);
    for (auto &o : t) {
        if (!a.T && o.k != "psize") continue;
        if (o.k == "grad") { if (a.nplanes()) a.check_gradient("in a session"); continue; }
        if (o.k == "cloud") { a.check_counts("in a session", true); continue; }
        if (o.k == "peval") { a.check_error("in a session"); continue; }
        if (o.k == "psolve") { if (!a.nplanes()) continue; a.exec(o); for (auto &x : a.traj()) for (int k = 0; k < 16; ++k) if (!(std::fabs(x.data()[k]) < 1e6)) return; a.check_error("after a solve"); continue; }
        if (o.k == "pevalp") { if (!a.nplanes()) continue; auto v = a.evaluate(); if (v.size() != 13 || v[1] != a.T || v[2] != (double)a.count()) fail("plane-evaluate", "evaluation reports other poses or points than were given"); double sc, e = a.err(a.traj(), &sc); a.eval(); if (!(std::fabs(v[6] - e) <= 1e-9 * sc)) fail("plane-evaluate", fmt("evaluation reports error %.12g, the points held give %.12g", v[6], e)); continue; }
        bool big = o.k != "pt" && o.k != "ppt"; a.exec(o); if (big) a.check_counts(o.k.c_str(), false);
        if (o.k == "preset" || o.k == "setlast") { auto X = a.traj(); V6 xi = V6::Zero(); if (o.k == "setlast") { V6 x; for (int k = 0; k < 6; ++k) x(k) = o.fd(k); xi = x; } for (int k = 0; k < a.T; ++k) { M4 w = ref::expT(V6(xi * (a.T > 1 ? (double)k / (a.T - 1) : 0))); if (!((w - X[k]).cwiseAbs().maxCoeff() < 1e-7)) fail("trajectory-set", fmt("pose %d after %s is not on the geodesic to the last pose", k, o.k.c_str())); } }
    }
    if (a.T) { a.check_counts("at the end", true); a.check_error("at the end"); a.digest(); }
}
static Reg r14({"C14", gen14, run14, 16000, 120000, 3000000000ULL, PLN, "points in any arrival order and packets, dense scans, late and out-of-range points, unknown planes, re-sent planes, caches reset or cleared, evaluation between any two operations, sensors blind to planes"});
// ------------------------------------------------------------------ C15
// cfg kind: 0 any history, 1 recovery from nearby, 2 initialisation, 3 reset, 4 gradient descent in a small scene
static Trace gen15(Rng &r, int size, Stats &st) {
    int kind = r.i(9) / 2; PCfg c = random_cfg(r, size); c.dense = r.p(0.06); if (kind == 4 && r.p(0.4)) c.poses = 2; if (kind && kind != 4) c.nplanes = std::max(c.nplanes, 5); Trace t; t.push_back(Op("cfg", {kind}));
    if (kind == 1) { c.noise = 0; c.nplanes += r.i(6); c.tr *= r.u(0, 1); c.vis = r.p(0.5) ? 1 : 0.8; c.ppp = std::max(c.ppp, 4); c.rot = r.u(0, 1); }
    if (kind == 2) { if (r.p(0.7)) c.noise = 0; c.nplanes += 2; c.vis = r.u(0.6, 1); }
    PW w = make_world(r, c); if (kind == 4) { double far = 0.1; for (auto &q : w.pts) for (auto &x : q) far = std::max(far, x.norm()); double k = r.u(0.3, 0.6) / far; w.noise *= k; w.xi.tail<3>() *= k; for (auto &x : w.truth) x.topRightCorner<3, 1>() *= k; for (auto &q : w.pts) for (auto &x : q) x *= k; }
    t.push_back(Op("psize", {w.poses, w.nplanes})); for (int k = 0; k < w.nplanes; ++k) t.push_back(Op("addp", {k}));
    Op tr("truth"); for (int k = 0; k < 6; ++k) tr.d.push_back(w.xi(k)); t.push_back(tr);
    auto v = points(r, w, r.i(3), st); for (auto &o : v) { t.push_back(o); if (kind == 0 && r.p(0.05)) t.push_back(rsolve(r, true)); }
    if (kind == 0 || kind == 3) { int n = r.i(2, 6); for (int k = 0; k < n; ++k) { int q = r.i(6); if (q == 0) t.push_back(setlast_op(rxi(r, 0.6, 1))); else if (q == 1) t.push_back(Op("preset")); else t.push_back(rsolve(r, q < 4)); } if (kind == 0 && r.p(0.5)) { V6 x = w.xi + rxi(r, r.p(0.5) ? 0.1 : 0.4, 0.3); Op q("osolve", {r.i(3), r.p(0.1) ? 0 : r.i(1, 30)}, {std::pow(10.0, r.u(-6, 0))}); for (int j = 0; j < 6; ++j) q.d.push_back(x(j)); t.push_back(q); } t.push_back(rsolve(r, false)); }
    if (kind == 4) { V6 x = w.xi + rxi(r, r.p(0.5) ? 0.02 : 0.2, 0.05); t.push_back(setlast_op(x)); for (int k = r.i(1, 4); k > 0; --k) t.push_back(Op("descend", {r.p(0.5) ? (i64)NAG : (i64)ALLPOSES, r.p(0.6)})); }
    if (kind == 1) { V6 x = w.xi + rxi(r, 0.1, 0.15); t.push_back(setlast_op(x)); t.push_back(Op("recover", {r.i(3)})); }
    if (kind == 2) { if (r.p(0.7)) t.push_back(setlast_op(rxi(r, 2, 5))); if (r.p(0.3)) t.push_back(rsolve(r, true)); t.push_back(Op("init")); }
    if (kind == 3) { t.push_back(Op("fresh")); int n = r.i(1, 3); for (int k = 0; k < n; ++k) t.push_back(rsolve(r, true)); }
    return t;
}
static double traj_diff(const std::vector<M4> &a, const std::vector<M4> &b) { double m = 0; for (size_t k = 0; k < a.size(); ++k) { double d = (a[k] - b[k]).cwiseAbs().maxCoeff(); if (!(d <= m)) m = d; } return m; }
static bool lmmode(i64 m) { return m == LM_S || m == LM_E; }
// information about the last pose in the plane-to-points geometry (smallest/largest eigenvalue)
static double observability(PSess &a, const std::vector<M4> &X) {      // the planes themselves are unknown: they are eliminated
    M6 H = M6::Zero(), F = M6::Zero(); M4 G[6]; for (int i = 0; i < 6; ++i) { G[i] = M4::Zero(); if (i < 3) { V3 u = V3::Zero(); u(i) = 1; G[i].topLeftCorner<3, 3>() = ref::hat(u); } else G[i](i - 3, 3) = 1; }
    for (auto &p : a.pl) if (p.second.inreg) {
        std::vector<M4> Q; M4 S = M4::Zero(); for (int t = 0; t < a.T; ++t) { Q.push_back(X[t] * PSess::scatter(p.second.pts[t]) * X[t].transpose()); S += Q.back(); }
        Eigen::SelfAdjointEigenSolver<M4> e(S); if (!(e.eigenvalues()(1) > 1e-3 * e.eigenvalues()(3))) continue;
        Eigen::Vector4d pi = e.eigenvectors().col(0); Eigen::Matrix<double, 4, 3> Vp = e.eigenvectors().rightCols<3>(); Eigen::Matrix<double, 4, 6> J; for (int i = 0; i < 6; ++i) J.col(i) = G[i].transpose() * pi;
        M6 A = M6::Zero(); Eigen::Matrix<double, 6, 3> B = Eigen::Matrix<double, 6, 3>::Zero(); for (int t = 1; t < a.T; ++t) { double w = (double)t / (a.T - 1); A += w * w * J.transpose() * Q[t] * J; B += w * J.transpose() * Q[t] * Vp; }
        M3 C = Vp.transpose() * S * Vp; H += A - B * C.inverse() * B.transpose(); F += A;
    }
    Eigen::SelfAdjointEigenSolver<M6> e(H), f(F); return f.eigenvalues()(5) > 0 ? e.eigenvalues()(0) / f.eigenvalues()(5) : 0;
}
static void run15(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); PSess a(cx); std::unique_ptr<PSess> fresh; int kind = cfg_kind(t); V6 xi = V6::Zero();
    for (auto &o : t) {
        if (o.k == "truth") { for (int k = 0; k < 6; ++k) xi(k) = o.fd(k); continue; }
        if (o.k == "cfg" || (!a.T && o.k != "psize")) continue;
        auto Xt = [&]() { std::vector<M4> X; for (int k = 0; k < a.T; ++k) X.push_back(ref::expT(V6(xi * (a.T > 1 ? (double)k / (a.T - 1) : 0)))); return X; };
        if (o.k == "psolve") {
            double e0 = a.eval(), sc; auto X0 = a.traj(); a.err(X0, &sc); bool ap = a.exec(o); if (!ap) continue; std::string what = fmt("after mode %lld", (long long)o.at(0)); a.check_traj(what.c_str()); double e1 = a.eval();
            if (lmmode(o.at(0))) { if (!(e1 <= e0 + 1e-11 * sc)) fail("plane-worse", fmt("Levenberg-Marquardt registration (mode %lld) raised the error from %.12g to %.12g", (long long)o.at(0), e0, e1)); auto v = a.nplanes() ? a.evaluate() : std::vector<double>(13, 0); if (v[3] > 100) fail("plane-iterations", fmt("%.0f iterations reported, at most 100 allowed", v[3])); cx.st.add("lm"); }
            if (a.nplanes()) { auto v = a.evaluate(); if (!(std::fabs(v[5] - e0) <= 1e-11 * sc)) fail("plane-initial-error", fmt("initial error reported %.12g, it was %.12g", v[5], e0)); bool far = false; for (auto &X : a.traj()) far |= !(X.cwiseAbs().maxCoeff() < 1e8); if (far) { cx.st.add("newton_left_range"); break; } for (double x : v) if (!std::isfinite(x)) { fail("plane-evaluate", "evaluation reports a value that is not finite"); } }
            if (fresh) { fresh->exec(o); if (!same(a.traj().back(), fresh->traj().back())) fail("reset-differs", fmt("solve (mode %lld) after a reset ends elsewhere than in a registration that was never solved: error %.12g against %.12g", (long long)o.at(0), e1, fresh->eval())); }
            continue;
        }
        if (o.k == "osolve") {      // with an iteration budget
            if (!a.nplanes() || a.T < 2) continue; V6 x; for (int j = 0; j < 6; ++j) x(j) = o.fd(1 + j); int n = (int)o.at(1), md = (int)o.at(0); bool sane = true; double e0 = 0;
            auto go = [&](int k, int &it) { a.exec(Op("preset")); a.exec(setlast_op(x)); e0 = a.eval(); it = 0; if (k >= 0) { rt::Sut s; it = (int)a.reg->mrob::Optimizer::solve(md == 0 ? mrob::Optimizer::NEWTON_RAPHSON : md == 1 ? mrob::Optimizer::LEVENBERG_MARQUARDT_SPHER : mrob::Optimizer::LEVENBERG_MARQUARDT_ELLIP, k, o.fd(0)); } for (auto &X : a.traj()) for (int j = 0; j < 16; ++j) if (!(std::fabs(X.data()[j]) < 1e4)) sane = false; return a.eval(); };
            int it, i2; double e1 = go(n, it); if (!sane) { cx.st.add("budget_left_range"); continue; } a.check_traj("after a solve with a budget"); cx.dg.d(e1); cx.dg.u(it); double sc; a.err(a.traj(), &sc); cx.st.add("budgets");
            if (it < 1 || it > std::max(1, n)) fail("plane-budget", fmt("%d iterations done, %d asked for", it, n)); if (md && !(e1 <= e0 + 1e-11 * sc)) fail("plane-worse", fmt("method %d raised the error from %.12g to %.12g", md, e0, e1));
            if (it < n) { double p2 = go(it, i2), p1 = it > 1 ? go(it - 1, i2) : go(-1, i2); cx.st.add("budget_early_stops"); if (!(std::fabs(p2 - e1) <= 1e-9 * sc)) fail("plane-budget", fmt("a solve that ended after %d of %d iterations has error %.12g, with that budget %.12g", it, n, e1, p2)); if (!(std::fabs(p1 - e1) <= 1e-3 + 1e-9 * sc)) fail("plane-stopped-early", fmt("method %d stopped after %d of %d iterations although its last step changed the error from %.12g to %.12g", md, it, n, p1, e1)); }
            if (md == 0 && it > 1) { double p1 = it > 2 ? go(it - 2, i2) : go(-1, i2), p2 = go(it - 1, i2); if (sane && std::fabs(p1 - p2) < 1e-6) fail("plane-stopped-late", fmt("iteration %d was done although the one before changed the error only from %.12g to %.12g", it, p1, p2)); }
            continue;
        }
        if (o.k == "descend") {     // a gradient step from rest: all points are near the origin, where the fixed step length is short enough to go downhill
            if (!a.nplanes() || a.T < 2 || (o.at(0) == NAG && a.T != 2)) continue; auto X = a.traj(); double far = 0, sc, want = 0, e0; for (auto &p : a.pl) for (int k = 0; k < a.T; ++k) for (auto &x : p.second.pts[k]) far = std::max(far, V3(X[k].topLeftCorner<3, 3>() * x + X[k].topRightCorner<3, 1>()).norm());
            V6 last; { mrob::SE3 L; { rt::Sut s; L = a.reg->get_last_pose(); } rt::Sut s; last = L.ln_vee(); } if (o.at(0) == NAG) { a.exec(Op("preset")); a.exec(setlast_op(last)); }
            e0 = a.eval(); a.err(X, &sc); if (!(far < 0.75) || !(e0 < 0.05 * sc)) { cx.st.add("descend_skipped"); continue; }
            for (int k = 1; k < a.T; ++k) { V6 g = V6::Zero(); size_t n = 0; for (auto &p : a.pl) if (p.second.inreg) { mrob::Mat61 q; { rt::Sut s; q = p.second.obj->calculate_gradient(k); } g += q; n += p.second.pts[k].size(); } if (n) want += g.squaredNorm() / ((double)n * a.T); }
            bool one = o.at(1), nag = o.at(0) == NAG; a.exec(Op("psolve", {o.at(0), one})); a.check_traj("after a gradient step"); double e1 = a.eval(); cx.st.add("descents");
            if ((one || !nag) && !(e1 <= e0 - 0.05 * want + 1e-11 * sc)) fail("plane-uphill", fmt("gradient registration (mode %lld) took the error from %.12g to %.12g, where the squared slope is %.3g", (long long)o.at(0), e0, e1, want));
            if (one) continue;
            int it = (int)a.evaluate()[3]; if (it < 1 || it > 10000) fail("plane-endless", fmt("gradient registration did %d iterations", it));
            if (!nag) { a.exec(Op("psolve", {o.at(0), 0})); double e2 = a.eval(); if (it == 10000 && std::fabs(e2 - e1) < 1e-7) fail("plane-endless", fmt("gradient registration did %d iterations, again as many change the error only from %.12g to %.12g", it, e1, e2)); cx.st.add("descents_ended"); continue; }
            if (it > 400) { cx.st.add("descents_long"); continue; }
            // it ends once an iteration no longer changes the error, and not before: the same run, step by step
            a.exec(Op("preset")); a.exec(setlast_op(last)); std::vector<double> E{e0}; for (int k = 0; k < it; ++k) { a.exec(Op("psolve", {o.at(0), 1})); E.push_back(a.eval()); } cx.st.add("descents_stepped"); auto D = [&](int k) { return std::fabs(E[k] - E[k - 1]); };
            if (!(std::fabs(E[it] - e1) <= 1e-9 * sc)) fail("plane-steps", fmt("gradient registration in one call of %d iterations ends at error %.12g, in single iterations at %.12g", it, e1, E[it]));
            if (!(D(it) < 1.1e-4 || (it > 1 && D(it - 1) < 1.1e-4))) fail("plane-stopped-early", fmt("gradient registration stopped after %d iterations, the last changed the error from %.12g to %.12g", it, E[it - 1], E[it]));
            for (int k = 1; k + 3 < it; ++k) if (D(k) < 1e-6 && D(k + 1) < 1e-6) fail("plane-endless", fmt("gradient registration did %d iterations, number %d changed the error from %.12g to %.12g", it, k, E[k - 1], E[k]));
            continue;
        }
        if (o.k == "recover") {
            auto X = Xt(); if (observability(a, X) < 0.01 || a.T < 2) { cx.st.add("recover_skipped"); continue; } double sc; a.err(X, &sc); int n = 0; double d = 0, d0 = traj_diff(a.traj(), X); if (d0 > 0.5) { cx.st.add("recover_skipped"); continue; } double e0 = a.eval(); if (e0 > 0.02 * sc) { cx.st.add("recover_far"); }
            for (; n < 200; ++n) { Op s("psolve", {o.at(0) == 0 ? (i64)LM_S : o.at(0) == 1 ? (i64)LM_E : n % 2 ? (i64)LM_S : (i64)GN, 0}); a.exec(s); a.check_traj("while recovering"); d = traj_diff(a.traj(), X); if (d < 1e-5) break; }
            cx.st.add("recovered"); cx.st.add(fmt("recover_solves_%d", n < 3 ? 3 : n < 10 ? 10 : n < 30 ? 30 : n < 100 ? 100 : n < 200 ? 200 : 400)); if (!(d < std::max(1e-3, 0.05 * d0))) fail("not-recovered", fmt("after %d solves of noise-free planes the trajectory is %.3g from the truth (error %.3g)", n, d, a.eval())); continue;
        }
        if (o.k == "init") {
            // the initial guess is the best rigid alignment of the centres of the planes seen from both poses; for the same noise-free points that is the truth
            auto X = Xt(), W = X; bool well = true, truth = true;
            for (int k = 1; k < a.T; ++k) {
                std::vector<V3> c, d; V3 mc = V3::Zero(), md = V3::Zero(); auto mean = [](const std::vector<V3> &v) { V3 m = V3::Zero(); for (auto &x : v) m += x; return V3(m / v.size()); };
                for (auto &p : a.pl) { auto &u = p.second.pts[k], &v = p.second.pts[0]; if (u.empty() || v.empty()) continue; c.push_back(mean(u)); d.push_back(mean(v)); mc += c.back(); md += d.back(); if (!((X[k].topLeftCorner<3, 3>() * c.back() + X[k].topRightCorner<3, 1>() - d.back()).norm() < 1e-9)) truth = false; }
                if (c.size() < 3) { well = false; break; } mc /= c.size(); md /= c.size(); M3 H = M3::Zero(); for (size_t q = 0; q < c.size(); ++q) H += (c[q] - mc) * (d[q] - md).transpose();
                Eigen::JacobiSVD<M3> sv(H, Eigen::ComputeFullU | Eigen::ComputeFullV); V3 g = sv.singularValues(); M3 D = M3::Identity(); double sg = (sv.matrixV() * sv.matrixU().transpose()).determinant() < 0 ? -1 : 1; D(2, 2) = sg; if (!(g(1) > 1e-3 && g(1) + sg * g(2) > 1e-3 * g(0))) { well = false; break; }
                M3 R = sv.matrixV() * D * sv.matrixU().transpose(); W[k].topLeftCorner<3, 3>() = R; W[k].topRightCorner<3, 1>() = md - R * mc;
            }
            unsigned ok; { rt::Sut s; ok = (unsigned)a.reg->solve(mrob::PlaneRegistration::INITIALIZE); } a.check_traj("after initialisation"); cx.st.add(!well ? "initialise_degenerate" : truth ? "initialised" : "initialised_noisy"); if (!well) continue;
            if (ok != 1) fail("init-failed", "initialisation of well-observed planes reported failure"); double d = traj_diff(a.traj(), W); if (!(d < 1e-7)) fail("init-wrong", fmt("initialisation is %.3g from the alignment of the planes' centres", d)); if (truth && !(traj_diff(a.traj(), X) < 1e-6)) fail("init-wrong", fmt("initialisation from noise-free planes is %.3g from the truth", traj_diff(a.traj(), X))); continue;
        }
        if (o.k == "fresh") {
            a.exec(Op("preset")); for (auto &x : a.traj()) if (!(x == M4::Identity())) fail("reset-differs", "a reset trajectory is not the initial one"); fresh.reset(new PSess(cq)); for (auto &q : t) if (q.k == "psize" || q.k == "addp" || q.k == "ppt" || q.k == "pt") fresh->exec(q); continue;
        }
        a.exec(o);
    }
    (void)kind; if (a.T) { a.check_traj("at the end"); a.digest(); }
}
static Reg r15({"C15", gen15, run15, 7000, 80000, 6000000000ULL, PLN, "points in any arrival order and packets, sensors blind to planes at some poses, poor starts, any sequence of solver modes and resets"});
// ------------------------------------------------------------------ C16
static Trace gen16(Rng &r, int size, Stats &st) {
    PCfg c = random_cfg(r, size); c.ppp = r.i(1, 5); PW w = make_world(r, c); Trace t = history(r, w, st, r.u(0.1, 0.4), true), o; double p = r.u(0.1, 0.6);
    auto arm = [&](int lim) { return Op("oom", {r.p(0.7) ? r.i(1, 4) : r.i(1, lim), r.i(2)}); };
    for (auto &x : t) { if (x.k != "psize" && x.k != "ppt") { while (r.p(p)) o.push_back(arm(x.k == "psolve" ? 200 : 30)); o.push_back(x); continue; } if (x.k == "ppt") { for (size_t j = 0; j + 2 < x.d.size(); j += 3) { if (r.p(p * 0.5)) o.push_back(arm(3)); o.push_back(Op("pt", {x.at(0), x.at(1), x.at(2)}, {x.d[j], x.d[j + 1], x.d[j + 2]})); } continue; } o.push_back(x); }
    // many points on one plane at one pose: its storage has to grow, and growing fails
    if (r.p(0.12)) {
        std::vector<size_t> at; for (size_t k = 0; k < o.size(); ++k) if (o[k].k == "pt" && o[k].d.size() == 3) at.push_back(k);
        if (!at.empty()) {
            size_t k = at[r.i((int)at.size())]; Op b("ppt", {o[k].at(0), o[k].at(1), o[k].at(2)}); static const int N[] = {30, 62, 126, 254, 510, 511, 512, 1022}; int n = N[r.i(8)] + r.i(-2, 2); Trace add;
            auto more = [&](Op &q) { for (int c = 0; c < 3; ++c) q.d.push_back(o[k].d[c] + 0.001 * r.n()); };
            while (n-- > 0) more(b); add.push_back(b); for (int j = 0; j < 8; ++j) { if (r.p(0.8)) add.push_back(arm(2)); Op q("pt", b.i); more(q); add.push_back(q); } o.insert(o.begin() + k, add.begin(), add.end());
        }
    }
    return o;
}
struct PSnap { std::vector<M4> X; double e; i64 n, np; std::vector<i64> cnt; };
static PSnap psnap(PSess &a) { PSnap s; s.X = a.traj(); s.np = a.reg->get_all_planes().size(); s.n = (i64)a.reg->calculate_total_number_points(); for (auto &p : a.pl) for (int t = 0; t < a.T; ++t) s.cnt.push_back(p.second.obj->get_number_points(t)); s.e = a.eval(); return s; }
static void pcmp(const PSnap &a, const PSnap &b, const char *what) {
    if (a.np != b.np || a.n != b.n || a.cnt != b.cnt) fail("plane-atomic-counts", fmt("%s: %lld planes and %lld points became %lld and %lld", what, (long long)a.np, (long long)a.n, (long long)b.np, (long long)b.n));
    for (size_t k = 0; k < a.X.size(); ++k) if (!same(a.X[k], b.X[k])) fail("plane-atomic-trajectory", fmt("%s: pose %zu changed", what, k));
    if (memcmp(&a.e, &b.e, 8)) fail("plane-atomic-error", fmt("%s: error %.17g became %.17g", what, a.e, b.e));
}
static void twin(PSess &a, PSess &b, const char *what) {
    if (a.nplanes()) { double x = a.eval(), y = b.eval(); if (memcmp(&x, &y, 8)) fail("plane-twin-error", fmt("%s: error %.17g, undisturbed twin %.17g", what, x, y)); }
    auto X = a.traj(), Y = b.traj(); for (size_t k = 0; k < X.size(); ++k) if (!same(X[k], Y[k])) fail("plane-twin-trajectory", fmt("%s: pose %zu differs from the undisturbed twin", what, k));
}
static void run16(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); PSess a(cx), b(cq); std::vector<Op> pend;
    for (auto &o : t) {
        if (o.k == "oom") { pend.push_back(o); continue; } if (!a.T && o.k != "psize") continue; if (o.k == "ppt") pend.clear();
        bool solve = o.k == "psolve", edit = !solve && o.k != "grad" && o.k != "cloud" && o.k != "pprint"; if ((solve || o.k == "grad" || o.k == "pevalp") && !a.nplanes()) { pend.clear(); continue; }
        auto apply = [&](PSess &s) { if (o.k == "grad") { rt::Sut g; s.reg->calculate_gradient_hessian(); } else if (o.k == "cloud") { std::vector<mrob::Mat31> c; { rt::Sut g; c = s.reg->get_point_cloud(0); } rt::Hold h; c = std::vector<mrob::Mat31>(); } else s.exec(o); };
        bool done = false; std::vector<M4> X0 = a.traj(); bool broken = false;
        for (auto &f : pend) {
            if (done) break; bool fine = true; for (auto &x : a.traj()) for (int k = 0; k < 16; ++k) if (!std::isfinite(x.data()[k])) fine = false; if (!fine) break;
            PSnap before = psnap(a); rt::alloc_arm(f.at(0), f.at(1)); bool threw = false; try { apply(a); done = true; } catch (std::exception &) { threw = true; } bool fired = rt::alloc_disarm(); if (fired) cx.st.add(f.at(1) ? "oom_sticky" : "oom_once");
            if (threw && !fired) fail("unexpected-exception", "a call failed although memory was available");
            if (threw) { cx.st.add(solve ? "solve_interrupted" : "call_failed");
                if (!solve) pcmp(before, psnap(a), ("failed " + o.k).c_str()); else { a.check_traj("after an interrupted solve"); a.check_error("after an interrupted solve"); broken = true; } }
        }
        if (!done) { if (broken && solve) { a.exec(Op("preset")); b.exec(Op("preset")); } apply(a); } else if (broken) { a.exec(Op("preset")); b.exec(Op("preset")); apply(a); }      // an interrupted solve starts again from a known trajectory
        apply(b); pend.clear(); (void)edit;
        for (auto &x : a.traj()) for (int k = 0; k < 16; ++k) if (!(std::fabs(x.data()[k]) < 1e6)) return;
        twin(a, b, o.k.c_str()); if (o.k != "pt") a.check_counts(o.k.c_str(), false);
    }
    if (a.T) { a.check_counts("at the end", true); a.check_error("at the end"); a.digest(); }
}
static Reg r16({"C16", gen16, run16, 12000, 60000, 3000000000ULL, PLN, "allocation failure (one-shot and persistent) at a chosen allocation of every edit, evaluation and solve; arrival in any order"});
