// C12 C25: synthetic scenes and point-cloud registration
#include "planes.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/create_points.hpp"
#include "common.hpp"
using namespace planes; using ref::hat;
typedef mrob::MatX LM; typedef mrob::MatX1 LV;
static V6 rxi6(Rng &r, double rot, double tr) { V3 a(r.n(), r.n(), r.n()), b(r.n(), r.n(), r.n()); a *= rot * r.u() / std::max(1e-9, a.norm()); b *= tr * r.u() / std::max(1e-9, b.norm()); V6 x; x << a, b; return x; }
// ------------------------------------------------------------------ C25
// A sensor pair is {x, y, weight, factor of the covariance of x, of y}; "reg" registers everything received so far.
struct PairD { V3 x, y; double w; M3 cx, cy; };
static Trace gen25(Rng &r, int size, Stats &st) {
    Trace t; int shape = r.i(10); double noise = r.p(0.5) ? 0 : std::pow(10, r.u(-6, -1)); V6 xi = rxi6(r, r.p(0.2) ? M_PI : 2, r.p(0.1) ? 100 : 5); bool wide = r.p(0.3);
    Op c("cfg", {shape == 0}); t.push_back(c); Op tr("truth"); for (int k = 0; k < 6; ++k) tr.d.push_back(xi(k)); tr.d.push_back(noise); t.push_back(tr);
    M4 T = ref::expT(xi); int n = r.p(0.15) ? r.i(0, 3) : r.i(3, 6 + 15 * (size + 1)); if (size == 2 && r.p(0.01)) n = (int)std::pow(10, r.u(1.7, 3.5)); double ext = r.p(0.2) ? std::pow(10, r.u(-2, 2)) : 2; V3 off(r.n(), r.n(), r.n()); off *= r.p(0.3) ? 20 : 1; V3 e1(r.n(), r.n(), r.n()), e2(r.n(), r.n(), r.n()); e1 /= e1.norm(); e2 /= e2.norm();
    std::vector<std::pair<double, Op>> v;
    for (int k = 0; k < n; ++k) {
        V3 p = off + ext * (shape == 0 ? V3(e1 * r.u(-1, 1)) : shape == 1 ? V3(e1 * r.u(-1, 1) + e2 * r.u(-1, 1)) : V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1))); if (shape == 2) for (int j = 0; j < 3; ++j) p(j) = off(j) + (r.i(2) ? ext : -ext);   // corners of a cube
        V3 q = T.topLeftCorner<3, 3>() * p + T.topRightCorner<3, 1>() + noise * ext * V3(r.n(), r.n(), r.n());
        Op o("pair"); for (int j = 0; j < 3; ++j) o.d.push_back(p(j)); for (int j = 0; j < 3; ++j) o.d.push_back(q(j)); o.d.push_back(wide ? std::pow(10, r.u(-3, 3)) : r.u(0.2, 3));
        for (int m = 0; m < 2; ++m) { double s = wide ? std::pow(10, r.u(-2, 2)) : 1; V3 a(r.n(), r.n(), r.n()); a /= a.norm(); for (int j = 0; j < 3; ++j) o.d.push_back(a(j)); o.d.push_back(s * r.u(0.5, 1.5)); o.d.push_back(r.u(0.01, 1)); }
        v.push_back({k + (r.p(0.5) ? r.u(0, 20) : 0), o}); if (r.p(0.1)) { v.push_back({k + r.u(0, 30), o}); st.add("net_duplicated"); } if (r.p(0.05)) { v.pop_back(); st.add("net_lost"); }
    }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) { t.push_back(p.second); if (r.p(n > 60 ? 3.0 / n : 0.06)) t.push_back(Op("reg", {r.i(3), (i64)(r.next() >> 2), r.p(0.4) ? r.i(1, 8) : 0, r.i(2), r.i(3)})); }
    int m = r.i(1, 4); for (int k = 0; k < m; ++k) { Op o("reg", {r.i(3), (i64)(r.next() >> 2), r.p(0.4) ? r.i(1, 8) : 0, r.i(2), r.i(3)}); V6 g = rxi6(r, 0.3, 0.5); for (int j = 0; j < 6; ++j) o.d.push_back(g(j)); t.push_back(o); }
    t.push_back(Op("plane", {(i64)(r.next() >> 2)})); return t;
}
static PairD to_pair(const Op &o) {
    PairD p; p.x << o.fd(0), o.fd(1), o.fd(2); p.y << o.fd(3), o.fd(4), o.fd(5); p.w = o.fd(6, 1);
    M3 *c[2] = {&p.cx, &p.cy}; for (int m = 0; m < 2; ++m) { V3 a(o.fd(7 + 5 * m, 1), o.fd(8 + 5 * m), o.fd(9 + 5 * m)); double s = o.fd(10 + 5 * m, 1), e = o.fd(11 + 5 * m, 0.1); *c[m] = s * (M3::Identity() + (e - 1) * a * a.transpose()); }
    return p;
}
struct Clouds { LM X, Y, CX, CY; LV w; };
static Clouds pack(const std::vector<PairD> &v) {
    Clouds c; int n = (int)v.size(); c.X.resize(n, 3); c.Y.resize(n, 3); c.CX.resize(3 * n, 3); c.CY.resize(3 * n, 3); c.w.resize(n);
    for (int k = 0; k < n; ++k) { c.X.row(k) = v[k].x.transpose(); c.Y.row(k) = v[k].y.transpose(); c.w(k) = v[k].w; c.CX.block(3 * k, 0, 3, 3) = v[k].cx; c.CY.block(3 * k, 0, 3, 3) = v[k].cy; } return c;
}
static int reg(int alg, const Clouds &c, mrob::SE3 &T, double tol) { rt::Sut s; return alg == 0 ? mrob::PCRegistration::arun(c.X, c.Y, T) : alg == 1 ? mrob::PCRegistration::gicp(c.X, c.Y, c.CX, c.CY, T, tol) : mrob::PCRegistration::weighted_point(c.X, c.Y, c.w, T, tol); }
// weighted closed form (Umeyama); gap: how well the optimum is determined
static M4 umeyama(const std::vector<PairD> &v, bool weighted, double &gap, double &s1) {
    double W = 0; V3 a = V3::Zero(), b = V3::Zero(); for (auto &p : v) { double w = weighted ? p.w : 1; W += w; a += w * p.x; b += w * p.y; } a /= W; b /= W; M3 H = M3::Zero(); for (auto &p : v) H += (weighted ? p.w : 1) * (p.x - a) * (p.y - b).transpose();
    Eigen::JacobiSVD<M3> s(H, Eigen::ComputeFullU | Eigen::ComputeFullV); M3 D = M3::Identity(); double sg = (s.matrixV() * s.matrixU().transpose()).determinant() < 0 ? -1 : 1; D(2, 2) = sg; M3 R = s.matrixV() * D * s.matrixU().transpose();
    gap = (s.singularValues()(1) + sg * s.singularValues()(2)) / std::max(1e-300, s.singularValues()(0)); s1 = s.singularValues()(1); M4 T = M4::Identity(); T.topLeftCorner<3, 3>() = R; T.topRightCorner<3, 1>() = b - R * a; return T;
}
static double cost(const std::vector<PairD> &v, const M4 &T, bool weighted) { double c = 0; for (auto &p : v) c += (weighted ? p.w : 1) * (p.y - T.topLeftCorner<3, 3>() * p.x - T.topRightCorner<3, 1>()).squaredNorm(); return c; }
static void gicp_normal(const std::vector<PairD> &v, const M4 &T, M6 &H, V6 &J, double &c) { H.setZero(); J.setZero(); c = 0; M3 R = T.topLeftCorner<3, 3>(); for (auto &p : v) { V3 x = R * p.x + T.topRightCorner<3, 1>(), r = p.y - x; M3 L = (p.cy + R * p.cx * R.transpose()).inverse(); Eigen::Matrix<double, 3, 6> Jr; Jr << hat(x), -M3::Identity(); J += Jr.transpose() * L * r; H += Jr.transpose() * L * Jr; c += r.dot(L * r); } }
static void pt_normal(const std::vector<PairD> &v, const M4 &T, M6 &H, V6 &J) { H.setZero(); J.setZero(); for (auto &p : v) { V3 x = T.topLeftCorner<3, 3>() * p.x + T.topRightCorner<3, 1>(), r = p.y - x; Eigen::Matrix<double, 3, 6> Jr; Jr << hat(x), -M3::Identity(); J += p.w * Jr.transpose() * r; H += p.w * Jr.transpose() * Jr; } }
static bool rigid(const M4 &T, double tol) { for (int k = 0; k < 16; ++k) if (!std::isfinite(T.data()[k])) return false; M3 R = T.topLeftCorner<3, 3>(); return (R.transpose() * R - M3::Identity()).cwiseAbs().maxCoeff() < tol && std::fabs(R.determinant() - 1) < tol && T(3, 0) == 0 && T(3, 1) == 0 && T(3, 2) == 0 && T(3, 3) == 1; }
static bool bits(const M4 &a, const M4 &b) { return !memcmp(a.data(), b.data(), 128); }
static void run25(const Trace &t, Ctx &cx) {
    std::vector<PairD> v; V6 xi = V6::Zero(); double noise = 1; static const char *nm[] = {"arun", "gicp", "weighted_point"};
    for (auto &o : t) {
        if (o.k == "truth") { for (int k = 0; k < 6; ++k) xi(k) = o.fd(k); noise = o.fd(6); continue; }
        if (o.k == "pair") { v.push_back(to_pair(o)); continue; }
        if (o.k == "plane") {
            int n = (int)v.size(); if (n < 3) continue; Rng r((u64)o.at(0)); auto u = v; r.shuffle(u); mrob::Mat41 p, q; mrob::Mat31 c, d, nn; Clouds a = pack(v), b = pack(u); { rt::Sut s; p = mrob::estimate_plane(a.X); q = mrob::estimate_plane(b.X); c = mrob::estimate_centroid(a.X); d = mrob::estimate_centroid(b.X); nn = mrob::estimate_normal(a.X); }
            V3 m = V3::Zero(); for (auto &x : v) m += x.x; m /= n; M3 C = M3::Zero(); double sc = 1e-3, big = m.cwiseAbs().maxCoeff() + 1; for (auto &x : v) { C += (x.x - m) * (x.x - m).transpose(); sc = std::max(sc, (x.x - m).norm()); big = std::max(big, x.x.norm()); }
            if (!((c - m).norm() <= 1e-9 * big) || !((c - d).norm() <= 1e-9 * big)) fail("centroid", "the centroid is not the mean of the points in any order");
            Eigen::SelfAdjointEigenSolver<M3> es(C); double gap = (es.eigenvalues()(1) - es.eigenvalues()(0)) / std::max(1e-300, es.eigenvalues()(2)); if (!(gap > 1e-3)) { cx.st.add("plane_ambiguous"); continue; }
            V3 n0 = p.head<3>(); if (!(std::fabs(n0.norm() - 1) < 1e-9)) fail("plane-normal", fmt("the estimated plane has a normal of length %.12g", n0.norm()));
            if (!((nn - n0).norm() < 1e-12)) fail("plane-normal", "estimate_normal and estimate_plane disagree"); double s = n0.dot(es.eigenvectors().col(0)) < 0 ? -1 : 1;
            if (!((s * n0 - es.eigenvectors().col(0)).norm() < 1e-4)) fail("plane-normal", "the estimated normal is not the direction of least spread"); if (!(std::fabs(n0.dot(m) + p(3)) <= 1e-9 * big)) fail("plane-normal", "the estimated plane misses the centroid of its points");
            double s2 = n0.dot(V3(q.head<3>())) < 0 ? -1 : 1; if (!((p - s2 * q).norm() <= 1e-4 * big)) fail("plane-order", "the estimated plane depends on the order of the points"); cx.st.add("planes_estimated"); continue;
        }
        if (o.k != "reg") continue;
        int alg = (int)o.at(0), n = (int)v.size(); static const double tols[] = {1e-4, 1e-2, 1e-9}; double tol = tols[o.at(4) % 3];
        V6 g; for (int k = 0; k < 6; ++k) g(k) = o.fd(k); M4 T0 = ref::expT(g) * ref::expT(xi); mrob::SE3 A{mrob::Mat4(T0)}; T0 = to4(A);
        Clouds c = pack(v); if (n) cx.dg.u(n);
        // a failing allocation keeps the output, and a retry is as an undisturbed call
        mrob::SE3 B{mrob::Mat4(T0)}; int rb = reg(alg, c, B, tol); cx.st.add(nm[alg]);
        if (o.at(2)) { rt::alloc_arm(o.at(2), o.at(3)); bool threw = false; int ra = 0; try { ra = reg(alg, c, A, tol); } catch (std::exception &) { threw = true; } if (rt::alloc_disarm()) cx.st.add("oom"); else if (threw) fail("unexpected-exception", "a registration failed although memory was available");
            if (threw) { cx.st.add("interrupted"); if (!bits(to4(A), T0)) fail("interrupted-output", fmt("%s failed for lack of memory and changed its output", nm[alg])); ra = reg(alg, c, A, tol); }
            if (ra != rb || !bits(to4(A), to4(B))) fail("retry-differs", fmt("%s repeated after a failure gives another result", nm[alg])); }
        M4 T = to4(B); for (int k = 0; k < 16; ++k) cx.dg.d(T.data()[k]); cx.dg.u(rb);
        if (n < 3) { if (rb != 0) fail("too-few-points", fmt("%s of %d points reports success (%d)", nm[alg], n, rb)); if (!bits(T, T0)) fail("too-few-points", fmt("%s of %d points changed its output", nm[alg], n)); cx.st.add("too_few"); continue; }
        if (!rigid(T, 1e-9)) fail("invalid-transformation", fmt("%s returns %d and %s", nm[alg], rb, mstr(T).c_str()));
        double gap, s1, sc = 1, sp = 0; M4 U = umeyama(v, alg == 2, gap, s1); for (auto &p : v) { sc = std::max(sc, std::max(p.x.norm(), p.y.norm())); sp = std::max(sp, (p.x - v[0].x).norm()); }
        M4 Tt = ref::expT(xi);
        // other order of the same pairs
        auto u = v; Rng r((u64)o.at(1)); r.shuffle(u); Clouds cu = pack(u); mrob::SE3 C{mrob::Mat4(T0)}; int rc = reg(alg, cu, C, tol);
        if (alg == 0) {
            if (rb != 0 && rb != 1) fail("return-value", fmt("arun returns %d", rb)); if (!rb && !bits(T, T0)) fail("failed-output", "arun reports failure and changed its output");
            if (s1 < 1e-9) { if (rb) fail("co-linear", "arun reports success for co-linear points"); cx.st.add("colinear"); continue; } if (s1 < 1e-4 || gap < 1e-4) { cx.st.add("badly_determined"); continue; }
            if (!rb) fail("refused", fmt("arun refuses %d well-spread pairs", n)); if (rc != rb) fail("order", "arun succeeds in one order of the pairs only");
            double cond = sc / std::max(1e-9, sp) / gap; if (!((T - to4(C)).cwiseAbs().maxCoeff() <= 1e-11 * sc * cond * cond)) fail("order", fmt("arun depends on the order of the pairs: difference %.3g", (T - to4(C)).cwiseAbs().maxCoeff()));
            if (!((T - U).cwiseAbs().maxCoeff() <= 1e-10 * sc * cond * cond)) fail("not-optimal", fmt("arun is %.3g away from the least-squares solution", (T - U).cwiseAbs().maxCoeff()));
            if (noise == 0 && !((T - Tt).cwiseAbs().maxCoeff() <= 1e-10 * sc * cond * cond)) fail("not-recovered", fmt("arun is %.3g away from the true transformation of noise-free pairs", (T - Tt).cwiseAbs().maxCoeff())); cx.st.add("arun_checked"); continue;
        }
        // iterative solvers: judged where the optimum is well determined and the guess near it
        if (rb == 0 && s1 < 1e-6) { if (!bits(T, T0)) fail("failed-output", fmt("%s reports failure and changed its output", nm[alg])); cx.st.add("colinear"); continue; } if (rb < 1 || rb > 20) fail("return-value", fmt("%s reports %d iterations", nm[alg], rb)); M6 H; V6 J; double c0; if (alg == 1) gicp_normal(v, Tt, H, J, c0); else pt_normal(v, Tt, H, J);
        Eigen::SelfAdjointEigenSolver<M6> es(H); double cond = es.eigenvalues()(5) / std::max(1e-300, es.eigenvalues()(0)); if (!(cond < 1e6) || s1 < 1e-9 || noise > 1e-2 || sp > 20) { cx.st.add("badly_determined"); continue; }
        if (rb == 20) { cx.st.add("not_converged"); if (noise == 0 && g.head<3>().norm() < 0.3) fail("not-converged", fmt("%s needs all its iterations for noise-free pairs", nm[alg])); continue; }
        double slack = noise == 0 ? 1e-8 * cond + tol * 1e-1 : 10 * tol; slack *= sc;
        if (!((T - to4(C)).cwiseAbs().maxCoeff() <= 1e-9 * sc * cond)) { if (!(rc != rb && (T - to4(C)).cwiseAbs().maxCoeff() <= 2 * slack)) fail("order", fmt("%s depends on the order of the pairs: difference %.3g", nm[alg], (T - to4(C)).cwiseAbs().maxCoeff())); }
        M6 Hn; V6 Jn; if (alg == 1) gicp_normal(v, T, Hn, Jn, c0); else pt_normal(v, T, Hn, Jn); V6 step = Hn.ldlt().solve(Jn); if (!(step.norm() <= std::max(tol, 1e-9 * cond))) fail("not-optimal", fmt("%s stopped with tolerance %.3g where its next step is %.3g", nm[alg], tol, step.norm()));
        if (noise == 0 && !((T - Tt).cwiseAbs().maxCoeff() <= slack)) fail("not-recovered", fmt("%s is %.3g away from the true transformation of noise-free pairs", nm[alg], (T - Tt).cwiseAbs().maxCoeff()));
        if (alg == 2 && gap > 1e-3 && !((T - U).cwiseAbs().maxCoeff() <= slack * 3)) fail("not-optimal", fmt("weighted_point is %.3g away from the weighted least-squares solution", (T - U).cwiseAbs().maxCoeff()));
        cx.st.add(fmt("%s_checked", nm[alg]));
    }
}
static Reg r25({"C25", gen25, run25, 120000, 1500000, 500000000ULL, "PCRegistration::arun, gicp, weighted_point, estimate_plane, estimate_normal, estimate_centroid, SE3 (real code)", "pairs lost, duplicated and delivered in any order, registration after any number of pairs, allocation failure inside a registration, degenerate clouds, poor initial guesses"});
