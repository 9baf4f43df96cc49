#include "ref.hpp"
namespace ref {
M3 hat(const V3 &w) { M3 m; m << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0; return m; }
M3 expR(const V3 &w) {
    double a = w.norm();
    if (a < 1e-12) return M3(M3::Identity() + hat(w));
    return Eigen::AngleAxisd(a, w / a).toRotationMatrix();
}
V3 logR(const M3 &R) {
    Eigen::Quaterniond q(R); q.normalize();
    if (q.w() < 0) q.coeffs() *= -1;
    double s = q.vec().norm();
    if (s < 1e-12) return V3(2.0 * q.vec());
    return V3(q.vec() * (2.0 * std::atan2(s, q.w()) / s));
}
static M3 Vmat(const V3 &w) {
    double a = w.norm(); M3 K = hat(w);
    if (a < 1e-4) return M3(M3::Identity() + 0.5 * K + K * K / 6.0);
    return M3(M3::Identity() + (1 - std::cos(a)) / (a * a) * K + (a - std::sin(a)) / (a * a * a) * K * K);
}
M4 expT(const V6 &xi) {
    M4 T = M4::Identity(); V3 w = xi.head<3>();
    T.topLeftCorner<3, 3>() = expR(w); T.topRightCorner<3, 1>() = Vmat(w) * xi.tail<3>();
    return T;
}
V6 logT(const M4 &T) {
    V6 xi; V3 w = logR(T.topLeftCorner<3, 3>());
    xi.head<3>() = w; xi.tail<3>() = Vmat(w).partialPivLu().solve(V3(T.topRightCorner<3, 1>()));
    return xi;
}
M4 invT(const M4 &T) {
    M4 I = M4::Identity(); M3 R = T.topLeftCorner<3, 3>().transpose();
    I.topLeftCorner<3, 3>() = R; I.topRightCorner<3, 1>() = -R * T.topRightCorner<3, 1>(); return I;
}
double wrap(double a) {
    double r = std::remainder(a, 2 * M_PI);
    if (r >= M_PI) r -= 2 * M_PI;
    return r;
}
M retract(int k, const M &x, const V &dx) {
    M y = x;
    switch (k) {
    case P2: y += dx; y(2) = wrap(y(2)); break;
    case L2: case L3: y += dx; break;
    case P3: y = expT(V6(dx)) * M4(x); break;
    case PL: y += dx; { V3 n = y.topRows(3); y.topRows(3) = n / n.norm(); } break;
    }
    return y;
}
V position(int D, const M &x) { return D == 2 ? V(x.topRows(2)) : x.cols() == 4 ? V(x.topRightCorner(4, 1).topRows(3)) : V(x); }
V residual(const Fac &f, const M &a, const M &b, const M &c3) {
    switch (f.kind) {
    case F1P2: { V r = a - f.obs; r(2) = wrap(r(2)); return r; }
    case F2P2: {
        double c = std::cos(a(2)), s = std::sin(a(2)), dx = b(0) - a(0), dy = b(1) - a(1);
        V r(3); r << c * dx + s * dy - f.obs(0), -s * dx + c * dy - f.obs(1), wrap(b(2) - a(2) - f.obs(2)); return r; }
    case FODO: {
        double th = a(2) + f.obs(0); V r(3);
        r << a(0) + f.obs(1) * std::cos(th) - b(0), a(1) + f.obs(1) * std::sin(th) - b(1), wrap(th + f.obs(2) - b(2)); return r; }
    case F1P1L2: {
        double dx = b(0) - a(0), dy = b(1) - a(1), q = dx * dx + dy * dy; V r(2);
        if (q < 1e-6) { r.setZero(); return r; }
        r << std::sqrt(q) - f.obs(0), wrap(std::atan2(dy, dx) - a(2) - f.obs(1)); return r; }
    case F1P3: { V r = logT(M4(a) * invT(expT(V6(f.obs)))); return r; }
    case F2P3: { V r = logT(M4(a) * expT(V6(f.obs)) * invT(M4(b))); return r; }
    case F1P1L3: { M4 Ti = invT(M4(a)); V r = Ti.topLeftCorner<3, 3>() * V3(b) + Ti.topRightCorner<3, 1>() - V3(f.obs); return r; }
    case F1P1PL: {
        Eigen::Vector4d z = f.obs; z.head<3>() /= z.head<3>().norm();
        Eigen::Vector4d l = M4(a).transpose() * Eigen::Vector4d(b);
        V r = l; if (l(3) < 0) r += z; else r -= z; return r; }
    case FPT2PL: {   // obs = [x(3), y(3), n(3)]
        M4 T = a; V3 p = T.topLeftCorner<3, 3>() * f.obs.segment<3>(0) + T.topRightCorner<3, 1>();
        V r(1); r << V3(f.obs.segment<3>(6)).dot(p - V3(f.obs.segment<3>(3))); return r; }
    case FLC2: case FLC3: { int D = fdim(f.kind); return V(f.obs(D) * position(D, a) + f.obs(D + 1) * position(D, b) + f.obs(D + 2) * position(D, c3) - f.obs.head(D)); }
    }
    return V();
}
double robust_w(int k, double u) {
    switch (k) {
    case HUBER: return u < 1.0 ? 1.0 : 1.0 / u;
    case CAUCHY: return 1.0 / (1 + u * u);
    case MCCLURE: return 1.0 / ((1 + u * u) * (1 + u * u));
    case RANSAC: return u < 1.0 ? 1.0 : 0.0;
    default: return 1.0;
    }
}
static const M none;
V Graph::res(const Fac &f) const { return residual(f, n(f.nodes[0]).x, f.nodes.size() > 1 ? n(f.nodes[1]).x : none, f.nodes.size() > 2 ? n(f.nodes[2]).x : none); }
double Graph::chi2(const Fac &f) const { V r = res(f); return 0.5 * r.dot(f.W * r); }
double Graph::chi2() const { double s = 0; for (auto &f : facs) s += chi2(f); return s; }
int Graph::state_dim() const { int d = 0; for (auto &x : nodes) if (!x.anchor) d += ndim(x.kind); return d; }
int Graph::obs_dim() const { int d = 0; for (auto &f : facs) d += fdim(f.kind); return d; }
M Graph::jac(const Fac &f, int w) const {
    const Node &nd = n(f.nodes[w]); int D = fdim(f.kind), N = ndim(nd.kind); M J(D, N);
    const double h = 1e-6;
    for (int k = 0; k < N; ++k) {
        V e = V::Zero(N); e(k) = h; M xp, xm;
        if (nd.kind == PL) { xp = nd.x; xm = nd.x; xp(k) += h; xm(k) -= h; }   // tangent of the unnormalised parameters
        else { xp = retract(nd.kind, nd.x, e); xm = retract(nd.kind, nd.x, -e); }
        V rp, rm;
        const M *p[3] = {&none, &none, &none}; for (size_t j = 0; j < f.nodes.size(); ++j) p[j] = &n(f.nodes[j]).x;
        p[w] = &xp; rp = residual(f, *p[0], *p[1], *p[2]); p[w] = &xm; rm = residual(f, *p[0], *p[1], *p[2]);
        V d = rp - rm;
        if (f.kind <= FODO) d(2) = wrap(d(2));
        if (f.kind == F1P1L2) d(1) = wrap(d(1));
        J.col(k) = d / (2 * h);
    }
    return J;
}
void Graph::system(M &A, M &W, V &r) const {
    int S = state_dim(), O = obs_dim(); A = M::Zero(O, S); W = M::Zero(O, O); r = V::Zero(O);
    std::map<i64, int> col; int c = 0;
    for (auto &x : nodes) if (!x.anchor) { col[x.tag] = c; c += ndim(x.kind); }
    int row = 0;
    for (auto &f : facs) {
        int D = fdim(f.kind); r.segment(row, D) = res(f);
        W.block(row, row, D, D) = weight(f) * f.W;
        for (size_t k = 0; k < f.nodes.size(); ++k) if (col.count(f.nodes[k]))
            A.block(row, col[f.nodes[k]], D, ndim(n(f.nodes[k]).kind)) += jac(f, (int)k);
        row += D;
    }
}
void Graph::normal(M &L, V &b) const {
    int S = state_dim(); L = M::Zero(S, S); b = V::Zero(S);
    std::map<i64, int> col; int c = 0;
    for (auto &x : nodes) if (!x.anchor) { col[x.tag] = c; c += ndim(x.kind); }
    for (auto &f : facs) {
        V r = res(f); M W = weight(f) * f.W; std::vector<M> J; std::vector<int> at;
        for (size_t k = 0; k < f.nodes.size(); ++k) if (col.count(f.nodes[k])) { J.push_back(jac(f, (int)k)); at.push_back(col[f.nodes[k]]); }
        for (size_t i = 0; i < J.size(); ++i) { b.segment(at[i], J[i].cols()) += J[i].transpose() * W * r; for (size_t j = 0; j < J.size(); ++j) L.block(at[i], at[j], J[i].cols(), J[j].cols()) += J[i].transpose() * W * J[j]; }
    }
}
double Graph::gn_step(V &dx) const {
    M L; V b; normal(L, b);
    dx = -L.ldlt().solve(b);
    return dx.size() ? dx.cwiseAbs().maxCoeff() : 0.0;
}
void Graph::apply(const V &dx) {
    int c = 0;
    for (auto &x : nodes) if (!x.anchor) { int d = ndim(x.kind); x.x = retract(x.kind, x.x, V(dx.segment(c, d))); c += d; }
}
bool Graph::solve(int iters, double tol) {
    for (int k = 0; k < iters; ++k) {
        V dx; double s = gn_step(dx);
        if (!(s < 1e6)) return false;
        apply(dx);
        if (s < tol) return true;
    }
    return false;
}
}
