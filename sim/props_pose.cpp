// C28: poses carried through a history of motions by robots that lose messages, crash and run out of memory
#include "planes.hpp"
#include "mrob/SE3cov.hpp"
#include "common.hpp"
typedef long double ld; typedef Eigen::Matrix<ld, 3, 3> N3; typedef Eigen::Matrix<ld, 4, 4> N4; typedef Eigen::Matrix<ld, 6, 6> N6; typedef Eigen::Matrix<ld, 3, 1> Nv; typedef Eigen::Matrix<ld, 6, 1> N61;
static N3 hatl(const Nv &w) { N3 h; h << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return h; }
static N4 expl6(const N61 &x) {
    Nv w = x.head<3>(), v = x.tail<3>(); ld o = w.norm(), o2 = o * o, a, b, c; N3 H = hatl(w);
    if (o < 1e-2L) { a = 1 - o2 / 6 + o2 * o2 / 120 - o2 * o2 * o2 / 5040; b = 0.5L - o2 / 24 + o2 * o2 / 720 - o2 * o2 * o2 / 40320; c = 1 / 6.0L - o2 / 120 + o2 * o2 / 5040 - o2 * o2 * o2 / 362880; }
    else { a = std::sin(o) / o; b = (1 - std::cos(o)) / o2; c = (o - std::sin(o)) / (o2 * o); }
    N4 T = N4::Identity(); T.topLeftCorner<3, 3>() = N3::Identity() + a * H + b * H * H; T.topRightCorner<3, 1>() = (N3::Identity() + b * H + c * H * H) * v; return T;
}
static Nv logl3(const N3 &R) {      // rotation vector, by the quaternion
    Eigen::Quaternion<ld> q(R); q.normalize(); Nv v = q.vec(); ld w = q.w(); if (w < 0) { v = -v; w = -w; } ld s = v.norm(); if (s < 1e-12L) return 2 * v; return v * (2 * std::atan2(s, w) / s);
}
static N4 invl(const N4 &T) { N4 r = N4::Identity(); N3 R = T.topLeftCorner<3, 3>().transpose(); r.topLeftCorner<3, 3>() = R; Nv t = R * T.topRightCorner<3, 1>(); r.topRightCorner<3, 1>() = -t; return r; }
static N6 adl(const N4 &T) { N6 A = N6::Zero(); N3 R = T.topLeftCorner<3, 3>(); A.topLeftCorner<3, 3>() = R; A.bottomRightCorner<3, 3>() = R; A.bottomLeftCorner<3, 3>() = hatl(T.topRightCorner<3, 1>()) * R; return A; }
static N6 curl(const N61 &x) { N6 A = N6::Zero(); A.topLeftCorner<3, 3>() = hatl(x.head<3>()); A.bottomRightCorner<3, 3>() = A.topLeftCorner<3, 3>(); A.bottomLeftCorner<3, 3>() = hatl(x.tail<3>()); return A; }
// covariance of a product of uncertain poses by its definition: moments of the Gaussian perturbations, to second or fourth order
static N6 covl(const N4 &T1, const N6 &S1, const N6 &C2, bool fourth) {
    N6 Ad = adl(T1), S2 = Ad * C2 * Ad.transpose(), S = S1 + S2; if (!fourth) return S;
    N6 A1 = N6::Zero(), A2 = A1, B = A1; N6 e[6]; for (int i = 0; i < 6; ++i) { N61 u = N61::Zero(); u(i) = 1; e[i] = curl(u); }
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { N6 p = e[i] * e[j]; A1 += S1(i, j) * p; A2 += S2(i, j) * p; B += S1(i, j) * e[i] * S2 * e[j].transpose(); }
    return S + (A1 * S2 + S2 * A1.transpose() + A2 * S1 + S1 * A2.transpose()) / 12 + B / 4;
}
template <class A, class B> static double far(const A &a, const B &b) { double m = 0; for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) { double d = (double)std::fabs((ld)a(i, j) - (ld)b(i, j)); if (!(d <= m)) m = d; if (std::isnan(d)) return 1e300; } return m; }
static N4 L4(const mrob::SE3 &x) { mrob::Mat4 m; { rt::Sut s; m = x.T(); } return m.cast<ld>(); }
static double rotd(const N3 &R) { return far(N3(R.transpose() * R), N3(N3::Identity())); }
static mrob::Mat61 d6(const N61 &x) { return x.cast<double>(); }
// accuracy to expect from the logarithm of a rotation that is itself known to d: the library takes the angle from the trace, and half a turn for anything nearer to it than 6e-8
static double logtol(ld angle, double d) { double s = std::sin((double)angle), g = (double)(M_PIl - angle); return 1e-13 + 8 * d + (g < 1.6 ? std::min(d / std::max(1e-300, std::fabs(s)), std::sqrt(2 * d)) * 4 + (g < 2e-7 ? 1.3e-7 : 0) : 0); }
struct Bot {
    mrob::SE3Cov B; mrob::SO3 G; N4 T; N3 R; double br = 1e-15, bt = 1e-15, bg = 1e-15;      // real; reference; how far rounding may have taken them apart
    int form = 0; mrob::Mat4 cm; mrob::Mat61 cx; mrob::Mat41 cq, cgq; mrob::Mat31 ct, cgw; mrob::Mat6 cc; mrob::Mat3 cg; N4 cT; N3 cR; double cbr = 0, cbt = 0, cbg = 0; bool saved = false; std::vector<Op> log; int n = 0;
    double tn() const { return (double)T.topRightCorner<3, 1>().norm(); }
};
static double smax(const mrob::Mat6 &C) { return C.cwiseAbs().maxCoeff(); }
static mrob::Mat6 cov_of(const Op &o, size_t at) { Rng r((u64)o.at(2)); double s = o.fd(at, 1e-2); mrob::Mat6 A; for (int i = 0; i < 36; ++i) A.data()[i] = r.n(); A.topRows<3>() *= o.fd(at + 1, 1); mrob::Mat6 C = s * s * A * A.transpose() / 6; return mrob::Mat6(0.5 * (C + C.transpose())); }
static N61 x6(const Op &o, size_t at = 0) { N61 x; for (int k = 0; k < 6; ++k) x(k) = o.fd(at + k); return x; }
struct Fleet {
    Ctx &cx; std::map<i64, Bot> bots; Fleet(Ctx &c) : cx(c) {}
    void valid(Bot &b, const char *what) {
        N4 t = L4(b.B); mrob::Mat3 g; mrob::Mat6 c; { rt::Sut s; g = b.G.R(); c = b.B.cov(); } ld last = t(3, 3); if (!(t(3, 0) == 0 && t(3, 1) == 0 && t(3, 2) == 0 && last == 1)) fail("pose-invalid", fmt("the bottom row of a pose is not 0 0 0 1 %s", what));
        double d = rotd(t.topLeftCorner<3, 3>()), dg = rotd(g.cast<ld>()); if (!(d <= 4 * b.br + 1e-14)) fail("pose-invalid", fmt("after %d motions a pose has a rotation %.3g from orthonormal %s", b.n, d, what)); if (!(dg <= 4 * b.bg + 1e-14)) fail("rotation-invalid", fmt("after %d motions a rotation is %.3g from orthonormal %s", b.n, dg, what));
        if (!(t.topLeftCorner<3, 3>().determinant() > 0.5L) || !(g.determinant() > 0.5)) fail("pose-invalid", fmt("a rotation is a reflection %s", what));
        double e = far(N3(t.topLeftCorner<3, 3>()), N3(b.T.topLeftCorner<3, 3>())), u = far(Nv(t.topRightCorner<3, 1>()), Nv(b.T.topRightCorner<3, 1>())); if (!(e <= b.br) || !(u <= b.bt)) fail("pose-differs", fmt("%s, motion %d: the pose is %.3g (rotation) and %.3g (translation) from the composition of the motions, rounding explains %.3g and %.3g", what, b.n, e, u, b.br, b.bt));
        double h = far(N3(g.cast<ld>()), b.R); if (!(h <= b.bg)) fail("rotation-differs", fmt("%s, motion %d: the rotation is %.3g from the composition of the motions, rounding explains %.3g", what, b.n, h, b.bg));
        double cs = smax(c); if (!(far(c, mrob::Mat6(c.transpose())) <= 1e-12 * cs + 1e-300)) fail("covariance-asymmetric", fmt("the covariance of a pose is not symmetric %s", what));
    }
    // one motion: right-multiplies by exp(x), in one of the ways the library offers
    void move(Bot &b, const N61 &x, int route, const Op &o) {
        mrob::Mat61 dx = d6(x); N61 X = dx.cast<ld>(); N4 E = expl6(X); double v = (double)X.tail<3>().norm(), t0 = b.tn(); mrob::Mat6 C = cov_of(o, 6), c0; { rt::Sut s; c0 = b.B.cov(); } N4 before = L4(b.B); bool fourth = route == 4 || route == 5; N6 want = c0.cast<ld>(); mrob::SE3Cov old; { rt::Sut s; old = b.B; }
        {
            rt::Sut s;
            switch (route) {
                case 0: b.B.update_rhs(dx); break;
                case 1: { mrob::SE3 q = b.B.mrob::SE3::mul(mrob::SE3(dx)); b.B = mrob::SE3Cov(q, c0); break; }
                case 2: b.B = b.B.compound_2nd_order(mrob::SE3Cov(mrob::SE3(dx), C)); break;
                case 3: b.B = b.B.compound_2nd_order(mrob::SE3(dx), C); break;
                case 4: b.B = b.B.compound_4th_order(mrob::SE3(dx), C); break;
                case 5: b.B = b.B.compound_4th_order(mrob::SE3Cov(mrob::SE3(dx), C)); break;
                case 6: { mrob::SE3 q = b.B.inv(); q.update_lhs(mrob::Mat61(-dx)); b.B = mrob::SE3Cov(q.inv(), c0); break; }       // (exp(-x) T^-1)^-1
                case 7: { mrob::Mat61 y = b.B.adj() * dx; b.B.update_lhs(y); break; }                                              // exp(Ad x) T
                case 8: { mrob::Mat61 h = 0.5 * dx; b.B.update_rhs(h); b.B.update_rhs(h); break; }
                case 9: { mrob::SE3 e(dx); mrob::SO3 r(e.R()); mrob::SE3 q(mrob::SO3(mrob::Mat3(b.B.R())) * r, mrob::Mat31(b.B.transform(e.t()))); b.B = mrob::SE3Cov(q, c0); break; }
                case 10: { mrob::SE3 e; e.exp(mrob::hat6(dx)); mrob::SE3 q(mrob::Mat3(b.B.R() * e.R()), mrob::Mat31(b.B.R() * e.t() + b.B.t())); q = q; b.B = mrob::SE3Cov(q, c0); break; }
                case 11: { mrob::SE3 q = b.B; q.ref2T() *= mrob::SE3(dx).T(); b.B = mrob::SE3Cov(q, c0); break; }
                case 12: b.B = b.B.mul(mrob::SE3Cov(mrob::SE3(dx), C)); break;
                default: b.B = b.B * mrob::SE3Cov(mrob::SE3(dx), C); break;
            }
            mrob::Mat31 w = dx.head<3>();
            switch (route % 7) {
                case 0: b.G.update_rhs(w); break;
                case 1: b.G = b.G * mrob::SO3(w); break;
                case 2: b.G = b.G.mul(mrob::SO3(w)); break;
                case 3: { mrob::SO3 q = b.G.inv(); q.update_lhs(mrob::Mat31(-w)); b.G = q.inv(); break; }
                case 4: { mrob::Mat31 y = b.G.adj() * w; b.G.update_lhs(y); break; }
                case 5: { mrob::SO3 q; q.exp(mrob::hat3(w)); b.G.ref2R() *= q.R(); b.G = b.G; break; }
                default: { mrob::Mat31 h = 0.5 * w; b.G.update_rhs(h); b.G.update_rhs(h); break; }
            }
        }
        b.T = b.T * E; b.R = b.R * E.topLeftCorner<3, 3>(); ++b.n; double ad = route == 7 ? 4e-15 * (1 + t0) * (1 + v) * (1 + (double)X.norm()) : 0; b.bt += 1e-12 * v + 8 * b.br * (t0 + v) + 1e-15 * (t0 + v) + ad * (1 + t0); b.br += 1e-14 + 4e-15 * (double)X.head<3>().norm(); b.bg += 1e-14 + 4e-15 * (double)X.head<3>().norm();
        N4 now = L4(b.B), st = before * E; double sd = far(now, st), sl = 1e-13 + 1e-12 * v + 1e-15 * t0 * 16 + ad * (1 + t0) + (route == 6 ? 8 * b.br * (t0 + v) : 0) + (route == 7 ? 8 * b.br * (1 + t0) * (1 + v) : 0) + 4 * b.br * 0; if (!(sd <= sl)) fail("motion-differs", fmt("motion %d by route %d is off by %.3g (rounding explains %.3g)", b.n, route, sd, sl));
        // the covariance of this step from its definition
        mrob::Mat6 c1; { rt::Sut s; c1 = b.B.cov(); } bool comp = (route >= 2 && route <= 5) || route >= 12; if (comp) want = covl(before, c0.cast<ld>(), C.cast<ld>(), fourth); double cs = (double)want.cwiseAbs().maxCoeff() + smax(c0);
        if (!(far(c1, want) <= 1e-11 * cs)) fail("covariance-differs", fmt("motion %d by route %d: the covariance is %.3g off its definition (largest entry %.3g)", b.n, route, far(c1, want), cs));
        if (comp && !fourth) { Eigen::SelfAdjointEigenSolver<mrob::Mat6> es(mrob::Mat6(c1 - c0)); if (!(es.eigenvalues()(0) >= -1e-11 * cs)) fail("covariance-shrinks", fmt("an uncertain motion took uncertainty away (%.3g of %.3g)", es.eigenvalues()(0), cs)); }
        if (!(far(L4(old), before) == 0)) fail("copy-shared", "a copy of a pose moved with the original");
        if (cs > 1e6) { rt::Sut s; b.B = mrob::SE3Cov(b.B, mrob::Mat6(mrob::Mat6::Identity() * 1e-4)); }
        for (int i = 0; i < 16; ++i) cx.dg.d((double)now.data()[i]); cx.st.add(fmt("route_%d", route));
    }
    void replay_log(Bot &b) { auto l = b.log; for (auto &o : l) if (o.k == "odo") move(b, x6(o), (int)(o.at(1) % 14), o); }
    void adopt(Bot &b) { b.T = L4(b.B); mrob::Mat3 g; { rt::Sut s; g = b.G.R(); } b.R = g.cast<ld>(); b.br = 1e-15 + rotd(b.T.topLeftCorner<3, 3>()); b.bg = 1e-15 + rotd(b.R); b.bt = 1e-15; }      // a loss of accuracy the library documents: go on from there
    void save(Bot &b, int form) {
        rt::Sut s; b.form = form; b.saved = true; b.log.clear(); b.cm = b.B.T(); b.cx = b.B.ln_vee(); b.cq = mrob::so3_to_quat(b.B.R()); b.ct = b.B.t(); b.cc = b.B.cov(); b.cg = b.G.R(); b.cgw = b.G.ln_vee(); b.cgq = mrob::so3_to_quat(b.G.R()); b.cT = b.T; b.cR = b.R; b.cbr = b.br; b.cbt = b.bt; b.cbg = b.bg;
    }
    void crash(Bot &b) {
        if (!b.saved) return; N4 T = b.cT; N3 R = b.cR; int n = b.n;
        {   // all that is left is what was saved
            rt::Sut s; b.B.~SE3Cov(); b.G.~SO3(); memset((void *)&b.B, 0xA5, sizeof b.B); memset((void *)&b.G, 0xA5, sizeof b.G); mrob::SE3 P; double sc = b.form == 4 ? -2.5 : 1;
            if (b.form == 0) P = mrob::SE3(b.cm); else if (b.form == 1) P = mrob::SE3(b.cx); else if (b.form == 2 || b.form == 4) P = mrob::SE3(mrob::quat_to_so3(mrob::Mat41(sc * b.cq)), b.ct); else if (b.form == 3) P = mrob::SE3(mrob::SO3(mrob::Mat3(b.cm.topLeftCorner<3, 3>())), b.ct); else P = mrob::SE3(mrob::SO3(mrob::Mat31(b.cx.head<3>())), b.ct);
            new (&b.B) mrob::SE3Cov(P, b.cc); if (b.form == 1 || b.form == 5) new (&b.G) mrob::SO3(b.cgw); else if (b.form == 2 || b.form == 4) new (&b.G) mrob::SO3(mrob::quat_to_so3(mrob::Mat41(sc * b.cgq))); else new (&b.G) mrob::SO3(b.cg);
        }
        cx.st.add("crashes"); cx.st.add(fmt("restored_form_%d", b.form)); b.T = T; b.R = R; b.br = b.cbr; b.bt = b.cbt; b.bg = b.cbg; double t0 = b.tn();
        if (b.form == 1 || b.form == 5) {
            ld a = logl3(T.topLeftCorner<3, 3>()).norm(), g = logl3(R).norm(); double la = logtol(a, b.br), lg = logtol(g, b.bg); b.br += la; b.bg += lg; b.bt += la * (1 + t0) + (b.form == 1 ? 1e-10 * (1 + t0) : 0); valid_restore(b);
            if (la > 1e-11 || lg > 1e-11) { adopt(b); cx.st.add("restored_near_half_turn"); }
        } else if (b.form) { b.br = b.br * 4 + 1e-14; b.bg = b.bg * 4 + 1e-14; b.bt += 8 * b.br * 0; }
        valid(b, "after a restart"); b.n = n - (int)b.log.size(); replay_log(b); valid(b, "after the motions since the checkpoint were repeated");
    }
    void valid_restore(Bot &b) { N4 t = L4(b.B); mrob::Mat3 g; { rt::Sut s; g = b.G.R(); } double e = far(N3(t.topLeftCorner<3, 3>()), N3(b.T.topLeftCorner<3, 3>())), u = far(Nv(t.topRightCorner<3, 1>()), Nv(b.T.topRightCorner<3, 1>())), h = far(N3(g.cast<ld>()), b.R); if (!(e <= b.br) || !(u <= b.bt) || !(h <= b.bg)) fail("restore-differs", fmt("a pose restored from its logarithm is %.3g (rotation), %.3g (translation), %.3g (rotation alone) off, accuracy %.3g, %.3g, %.3g", e, u, h, b.br, b.bt, b.bg)); }
    // everything the library says about one pose, against the reference
    void laws(Bot &b, const Op &o) {
        valid(b, "when read"); N4 T = L4(b.B); N3 R = T.topLeftCorner<3, 3>(); Nv t = T.topRightCorner<3, 1>(); double tn = (double)t.norm() + 1; mrob::Mat61 xi; mrob::Mat31 w, gw; mrob::Mat4 ln; mrob::Mat6 ad; mrob::SE3 inv; mrob::Mat41 q; mrob::Mat3 rq, gR; double dist, dr, dt;
        { rt::Sut s; xi = b.B.ln_vee(); ln = b.B.ln(); ad = b.B.adj(); inv = b.B.inv(); q = mrob::so3_to_quat(b.B.R()); rq = mrob::quat_to_so3(q); mrob::SO3 r3(mrob::Mat3(b.B.R())); w = r3.ln_vee(); dist = b.B.distance(); dr = b.B.distance_rotation(); dt = b.B.distance_trans(); gw = b.G.ln_vee(); gR = b.G.R(); }
        ld a = logl3(R).norm(); double lt = logtol(a, b.br); N4 back = expl6(xi.cast<ld>()); double e = far(N3(back.topLeftCorner<3, 3>()), R), u = far(Nv(back.topRightCorner<3, 1>()), t); if (!(e <= lt + 1e-14) || !(u <= (lt + 5e-13) * tn)) fail("logarithm", fmt("the logarithm of a pose at angle %.12Lg is %.3g (rotation) and %.3g (translation) off, accuracy %.3g", a, e, u, lt));
        if (!(xi.head<3>().norm() <= M_PI + 1e-9)) fail("logarithm", "the logarithm of a pose is longer than half a turn"); if (!(far(mrob::vee6(ln), xi) == 0) || !(far(mrob::Mat4(mrob::hat6(xi)), ln) == 0)) fail("logarithm", "ln, ln_vee, hat6 and vee6 disagree"); if (!(far(w, mrob::Mat31(xi.head<3>())) <= 1e-12 + lt)) fail("logarithm", "the rotation part of the logarithm differs from the logarithm of the rotation");
        { ld ga = logl3(gR.cast<ld>()).norm(); N61 y = N61::Zero(); y.head<3>() = gw.cast<ld>(); double ge = far(N3(expl6(y).topLeftCorner<3, 3>()), N3(gR.cast<ld>())); if (!(ge <= logtol(ga, b.bg) + 1e-14)) fail("logarithm", fmt("the logarithm of a rotation by %.12Lg is %.3g off", ga, ge)); }
        if (!(far(ad, adl(T)) <= 1e-14 * tn)) fail("adjoint", "the adjoint of a pose is wrong"); if (!(far(L4(inv), invl(T)) <= 1e-14 * tn)) fail("inverse", "the inverse of a pose is wrong"); N4 one = T * L4(inv); if (!(far(one, N4(N4::Identity())) <= (8 * b.br + 1e-14) * tn)) fail("inverse", "a pose times its inverse is not the identity");
        if (!(std::fabs(q.norm() - 1) <= 1e-12 + 8 * b.br) || !(far(rq, R) <= 1e-13 + 16 * b.br)) fail("quaternion", fmt("a rotation by %.12Lg through a quaternion comes back %.3g off", a, far(rq, R)));
        double wd = (double)std::sqrt(a * a + (ld)xi.tail<3>().squaredNorm()); if (!(std::fabs(dr - (double)a) <= lt + 1e-12) || !(std::fabs(dt - (double)t.norm()) <= 1e-14 * tn) || !(std::fabs(dist - wd) <= (lt + 1e-10) * tn)) fail("distance", fmt("distances from the origin reported %.12g, %.12g, %.12g, expected %.12g, %.12Lg, %.12Lg", dist, dr, dt, wd, a, t.norm()));
        Rng r((u64)o.at(1)); mrob::Mat31 p, y; for (int k = 0; k < 3; ++k) p(k) = r.n() * 5; mrob::Mat31 rp, bk, rpy; for (int k = 0; k < 3; ++k) rpy(k) = r.u(-3.2, 3.2); mrob::Mat3 rr; mrob::Mat61 z; for (int k = 0; k < 6; ++k) z(k) = r.n(); mrob::Mat6 cw; mrob::Mat3 hz; mrob::Mat31 vz;
        bool ok, bad1, bad2, bad3; { rt::Sut s; rp = b.B.transform(p); bk = b.B.inv().transform(rp); rr = mrob::rpy_to_so3(rpy); cw = mrob::curly_wedge(z); hz = mrob::hat3(mrob::Mat31(z.head<3>())); vz = mrob::vee3(hz); ok = mrob::isSE3(b.B.T()) && mrob::isSO3(b.G.R()); mrob::Mat4 m = b.B.T(); m.col(0) *= -1; bad1 = mrob::isSE3(m); m = b.B.T(); m.topLeftCorner<3, 3>() *= 1.01; bad2 = mrob::isSE3(m); m = b.B.T(); m(3, 1) = 0.1; bad3 = mrob::isSE3(m); }
        if (!(far(rp, Nv(R * p.cast<ld>() + t)) <= 1e-13 * tn) || !(far(bk, p) <= (16 * b.br + 1e-13) * (tn + p.norm()))) fail("transform", "a point taken through a pose and back is elsewhere"); if (!(far(cw, curl(z.cast<ld>())) == 0) || !(far(vz, mrob::Mat31(z.head<3>())) == 0)) fail("generators", "the matrix forms of a twist are wrong");
        N3 wr = N3::Identity(); for (int k = 0; k < 3; ++k) { N61 c = N61::Zero(); c(k) = rpy(k); wr = wr * expl6(c).topLeftCorner<3, 3>(); } if (!(far(rr, wr) <= 1e-14)) fail("roll-pitch-yaw", "roll, pitch and yaw give another rotation"); if (!ok && b.br < 1e-8) fail("recognition", "a pose is not recognised as one"); if (bad1 || bad2 || bad3) fail("recognition", fmt("a reflection, a scaled rotation or a projective matrix is taken for a pose (%d%d%d)", bad1, bad2, bad3));
        cx.st.add(a < 1e-6 ? "laws_at_zero" : a > M_PIl - 1e-5L ? "laws_at_half_turn" : "laws"); cx.dg.d(dist); for (int k = 0; k < 6; ++k) cx.dg.d(xi(k));
    }
    void meet(Bot &a, Bot &b, bool handover) {
        mrob::SE3 rel, rev; double d, d2, r, r2, t, t2; mrob::Mat61 x; { rt::Sut s; rel = a.B.inv() * (const mrob::SE3 &)b.B; rev = b.B.inv().mul((const mrob::SE3 &)a.B); d = a.B.distance(b.B); d2 = b.B.distance(a.B); r = a.B.distance_rotation(b.B); r2 = b.B.distance_rotation(a.B); t = a.B.distance_trans(b.B); t2 = b.B.distance_trans(a.B); x = rel.ln_vee(); }
        double br = a.br + b.br, tn = a.tn() + b.tn() + 1; N4 q = invl(L4(a.B)) * L4(b.B); if (!(far(L4(rel), q) <= 1e-14 * tn)) fail("relative-pose", "the pose of one robot relative to another is wrong"); if (!(far(N4(L4(rel) * L4(rev)), N4(N4::Identity())) <= (16 * br + 1e-13) * tn)) fail("relative-pose", "the relative poses of two robots are not each other's inverse");
        N4 qq = L4(a.B) * invl(L4(b.B)); ld an = logl3(qq.topLeftCorner<3, 3>()).norm(); double lt = logtol(an, 4 * br); N3 Ra = L4(a.B).topLeftCorner<3, 3>(); (void)Ra; if (!(std::fabs(r - (double)an) <= lt + 1e-12) || !(std::fabs(r - r2) <= 2 * lt + 1e-12) || t != t2 || !(std::fabs(d - d2) <= (2 * lt + 1e-9) * tn)) fail("distance", fmt("distances between two robots are not symmetric: %.12g %.12g, %.12g %.12g (angle %.12Lg)", d, d2, r, r2, an));
        if (d + 1e-9 * tn < r - lt) fail("distance", "the distance of two poses is less than the distance of their rotations"); cx.st.add("meetings");
        if (handover && &a != &b) { mrob::SE3 again; { rt::Sut s; again = a.B.mrob::SE3::operator*(rel); } if (!(far(L4(again), L4(b.B)) <= (16 * br + 1e-13) * tn)) fail("relative-pose", "a pose recovered from another robot's and the relative pose is elsewhere"); mrob::Mat6 c; { rt::Sut s; c = b.B.cov(); b.B = mrob::SE3Cov(again, c); } b.bt += (16 * br + 1e-13) * tn; b.br = 4 * b.br + 4 * a.br + 1e-14; cx.st.add("handovers"); if (b.br > 1e-10) adopt(b); }
    }
    void scan(Bot &b, const Op &o) {
        int n = (int)o.at(1); Rng r((u64)o.at(4)); mrob::MatX P(n, 3), Q, Q2; for (int i = 0; i < n; ++i) for (int j = 0; j < 3; ++j) P(i, j) = r.n() * 10; N4 T = L4(b.B); bool threw = false;
        if (o.at(2)) { rt::alloc_arm(o.at(2), o.at(3)); try { rt::Sut s; Q = b.B.transform_array(P); } catch (std::bad_alloc &) { threw = true; } if (rt::alloc_disarm()) { cx.st.add("oom"); if (!threw) cx.st.add("oom_absorbed"); } else if (threw) fail("unexpected-exception", "transforming points failed although memory was available"); if (!(far(L4(b.B), T) == 0)) fail("interrupted-pose", "a failed allocation changed a pose"); }
        { rt::Sut s; Q2 = b.B.transform_array(P); } if (Q2.rows() != n || (n && Q2.cols() != 3)) fail("transform", "transforming n points does not give n points"); if (o.at(2) && !threw && n && !(far(Q, Q2) == 0)) fail("transform", "transforming the same points twice gives two results");
        for (int i = 0; i < n; ++i) { Nv y = T.topLeftCorner<3, 3>() * P.row(i).transpose().cast<ld>() + T.topRightCorner<3, 1>(); if (!(far(mrob::Mat31(Q2.row(i).transpose()), y) <= 1e-13 * (1 + b.tn() + 10))) fail("transform", fmt("point %d of %d is transformed wrongly", i, n)); } cx.st.add("scans");
    }
    void regen(Bot &b) {
        ld a = logl3(b.T.topLeftCorner<3, 3>()).norm(); double lt = logtol(a, b.br), t0 = b.tn() + 1; N4 T = L4(b.B); { rt::Sut s; b.B.regenerate(); } N4 n = L4(b.B); double d = rotd(n.topLeftCorner<3, 3>()); if (!(d <= 2e-14)) fail("regenerate", fmt("a regenerated rotation is %.3g from orthonormal", d));
        double e = far(N3(n.topLeftCorner<3, 3>()), N3(T.topLeftCorner<3, 3>())), u = far(Nv(n.topRightCorner<3, 1>()), Nv(T.topRightCorner<3, 1>())); if (!(e <= lt + 8 * b.br) || !(u <= (lt + 8 * b.br + 1e-10) * t0)) fail("regenerate", fmt("regeneration moved a pose at angle %.12Lg by %.3g (rotation) and %.3g (translation)", a, e, u)); b.br += e + 1e-15; b.bt += u + 1e-15; adopt(b); cx.st.add("regenerations");
    }
};
static Op odo_op(Rng &r, i64 id, int kind, double sc) {
    Op o("odo", {id, r.i(14), (i64)(r.next() >> 2)}); double rot = kind == 0 ? std::pow(10, r.u(-9, 0.5)) : kind == 1 ? r.u(0, 0.3) : r.u(0, 3.3), tr = sc * (r.p(0.1) ? 0 : r.u(0, 1));
    double a[6], n1 = 0, n2 = 0; for (int k = 0; k < 6; ++k) { a[k] = r.n(); (k < 3 ? n1 : n2) += a[k] * a[k]; } if (r.p(0.15)) { int j = r.i(3); for (int k = 0; k < 3; ++k) a[k] = k == j; n1 = 1; } if (r.p(0.05)) rot = 0;
    for (int k = 0; k < 6; ++k) o.d.push_back(k < 3 ? a[k] * rot / std::sqrt(n1) : a[k] * tr / std::sqrt(n2)); o.d.push_back(std::pow(10, r.u(-4, -0.3))); o.d.push_back(r.u(0.1, 1)); return o;
}
static Trace gen28(Rng &r, int size, Stats &st) {
    Trace t; int nb = r.i(1, 4), n = r.p(0.05) ? r.i(300, 1500) : r.i(3, 20 + 40 * size); double sc = std::pow(10, r.u(-2, 2)), pc = r.u(0, 0.15), pl = r.u(0, 0.3), loss = r.u(0, 0.3); int kind = r.i(3); t.push_back(Op("cfg", {kind})); std::vector<std::pair<double, Op>> v;
    for (int k = 0; k < nb; ++k) { Op o = odo_op(r, k, 2, sc); o.k = "bot"; t.push_back(o); }
    for (int k = 0; k < n; ++k) {
        i64 id = r.i(nb); Op o = odo_op(r, id, kind, sc);
        if (r.p(0.12)) { o.k = "go"; static const double E[] = {0, 1e-16, 1e-12, 1e-9, 5e-8, 1e-7, 1e-6, 9e-6, 2e-5, 1e-4, 9e-4, 2e-3, 4e-3, 6e-3, 0.1}; o.i.push_back(r.i(4)); o.d.push_back(E[r.i(15)] * (r.p(0.5) ? 1 : r.u(0.3, 3)) * (r.p(0.5) ? 1 : -1)); }
        double at = k + (r.p(loss) ? r.u(0, 8) : 0); if (at != k) st.add("net_delayed"); if (r.p(loss * 0.4)) { st.add("net_lost"); continue; } v.push_back({at, o}); if (r.p(loss * 0.4)) { v.push_back({k + r.u(0, 10), o}); st.add("net_duplicated"); }
    }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) {
        t.push_back(p.second); i64 id = p.second.at(0);
        if (r.p(pc)) t.push_back(Op("save", {id, r.i(6)})); if (r.p(pc)) t.push_back(Op("crash", {r.i(nb)})); if (r.p(pl) || p.second.k == "go") t.push_back(Op("laws", {id, (i64)(r.next() >> 2)}));
        if (p.second.k == "go" && r.p(0.4)) { t.push_back(Op("save", {id, r.i(6)})); t.push_back(Op("crash", {id})); } if (r.p(pl * 0.3)) t.push_back(Op("meet", {id, r.i(nb), r.i(2)})); if (r.p(pl * 0.3)) t.push_back(Op("regen", {id})); if (r.p(pl * 0.3)) t.push_back(Op("scan", {id, r.i(12), r.p(0.5) ? r.i(1, 4) : 0, r.i(2), (i64)(r.next() >> 2)}));
    }
    for (int k = 0; k < nb; ++k) t.push_back(Op("laws", {k, (i64)(r.next() >> 2)})); return t;
}
static void run28(const Trace &t, Ctx &cx) {
    Fleet f(cx);
    for (auto &o : t) {
        if (o.k == "cfg") continue; i64 id = o.at(0);
        if (o.k == "bot") {
            Bot b; mrob::Mat61 x = d6(x6(o)); mrob::Mat6 C = cov_of(o, 6); { rt::Sut s; b.B = mrob::SE3Cov(mrob::SE3(x), C); b.G = mrob::SO3(mrob::Mat31(x.head<3>())); } b.T = expl6(x.cast<ld>()); b.R = b.T.topLeftCorner<3, 3>(); b.br = b.bg = 4e-15 * (1 + x.head<3>().norm()); b.bt = 1e-12 * x.tail<3>().norm() + 1e-15; f.bots.erase(id); auto &q = f.bots.emplace(id, b).first->second; f.valid(q, "when created"); f.save(q, 0); continue;
        }
        auto it = f.bots.find(id); if (it == f.bots.end()) continue; Bot &b = it->second;
        if (o.k == "odo") { if (b.tn() > 1e4) { cx.st.add("too_far"); continue; } f.move(b, x6(o), (int)(o.at(1) % 14), o); b.log.push_back(o); if (b.n % 16 == 0) f.valid(b, "on the way"); if (b.log.size() > 200) f.save(b, 0); }
        else if (o.k == "go") {     // to a rotation near nothing, half a turn, a quarter turn, or where the library changes formula
            Nv ax(o.fd(0) + 1e-30, o.fd(1), o.fd(2)); ax /= ax.norm(); double e = o.fd(8); ld a = o.at(3) == 0 ? (ld)e : o.at(3) == 1 ? M_PIl - std::fabs((ld)e) : o.at(3) == 2 ? M_PIl / 2 + e : (ld)std::fabs(e) * 100; N61 y = N61::Zero(); y.head<3>() = a * ax; N3 W = expl6(y).topLeftCorner<3, 3>(); Op q = o; q.k = "odo"; Nv w = logl3(N3(L4(b.B).topLeftCorner<3, 3>().transpose() * W)); for (int k = 0; k < 3; ++k) { q.d[k] = (double)w(k); if (b.tn() > 1e4) q.d[3 + k] = 0; }
            q.i.resize(3); f.move(b, x6(q), (int)(q.at(1) % 14), q); b.log.push_back(q); cx.st.add("singular_angles");
        }
        else if (o.k == "save") f.save(b, (int)(o.at(1) % 6));
        else if (o.k == "crash") f.crash(b);
        else if (o.k == "laws") f.laws(b, o);
        else if (o.k == "regen") { f.regen(b); f.save(b, 0); }
        else if (o.k == "scan") f.scan(b, o);
        else if (o.k == "meet") { auto j = f.bots.find(o.at(1)); if (j != f.bots.end()) { f.meet(b, j->second, o.at(2)); if (o.at(2)) f.save(j->second, 0); } }
    }
    for (auto &p : f.bots) { f.valid(p.second, "at the end"); cx.st.add("motions", p.second.n); }
}
static Reg r28({"C28", gen28, run28, 60000, 2000000, 600000000ULL, "SO3, SE3, SE3Cov (real code)", "odometry lost, duplicated and reordered on the way, robots that crash and restart from a saved pose and repeat their motions, failing allocations"});
