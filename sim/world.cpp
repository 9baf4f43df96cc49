#include "world.hpp"
#include <queue>
#include <set>
namespace world {
using namespace ref;
std::vector<double> flat(const M &m) { std::vector<double> v; for (int r = 0; r < m.rows(); ++r) for (int c = 0; c < m.cols(); ++c) v.push_back(m(r, c)); return v; }
M rand_info(Rng &r, int n, double spread) {
    double s = std::pow(10.0, r.u(0, spread)); M A(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A(i, j) = r.u(-0.5, 0.5);
    M W;
    switch (r.i(3)) {
    case 0: W = M::Identity(n, n); break;
    case 1: { W = M::Zero(n, n); for (int i = 0; i < n; ++i) W(i, i) = r.u(0.5, 2); break; }
    default: W = A * A.transpose() + 0.5 * M::Identity(n, n);
    }
    W = s * W; M Wt = W.transpose(); return M(0.5 * (W + Wt));
}
Cfg random_cfg(Rng &r, int size) {
    Cfg c; c.mode = r.i(3); c.robots = r.i(1, 2);
    c.poses = size == 0 ? r.i(1, 4) : size == 1 ? r.i(2, 7) : r.i(4, 14);
    bool large = size == 2 && r.p(0.02); if (large) { c.poses = (int)std::pow(10, r.u(1.2, c.mode == 0 ? 2.05 : 1.6)); c.robots = 1; }      // a long session
    bool huge = size == 2 && !large && r.p(0.008); if (huge) { c.mode = 0; c.robots = 1; c.poses = r.i(130, 400); }      // longer than any counter kept in a byte
    c.marks = huge ? r.i(0, 4) : large ? r.i(2, 30) : r.i(0, size == 0 ? 2 : 4); static const double nz[] = {0, 1e-4, 1e-2}; c.noise = nz[r.i(3)];
    c.init = r.p(0.5) ? 0.02 : 0.1; c.robust = r.p(0.3); c.p_anchor = r.p(0.5) ? 0 : 0.3; c.p_rev = r.p(0.4) ? 0 : 0.4; c.loops = r.u(0, 1); c.user = r.p(0.25);
    if (huge) { c.loops = r.u(0, 0.2); c.user = false; }
    return c;
}
static V noise(Rng &r, int n, double s) { V v(n); for (int k = 0; k < n; ++k) v(k) = s * r.n(); return v; }
static void app(std::vector<double> &d, const V &v) { for (int k = 0; k < v.size(); ++k) d.push_back(v(k)); }
World make(Rng &r, const Cfg &c) {
    World w; i64 tag = 1; double now = 0;
    auto rk = [&]() -> i64 { if (c.ransac && r.p(0.2)) return RANSAC; return c.robust && r.p(0.5) ? r.i(1, 3) : 0; };
    auto node = [&](int kind, const M &truth, bool anchor, int src) {
        i64 t = tag++; w.truth[t] = truth; w.kind[t] = kind;
        M x = truth; if (!anchor) x = retract(kind, truth, noise(r, ndim(kind), c.init));
        Op o("node", {t, kind, anchor, r.p(0.3) ? sut::F_ALTCTOR : 0});
        if (kind == P3) app(o.d, logT(M4(x))); else app(o.d, V(x));
        w.msgs.push_back({o, src, now, {}}); return t;
    };
    auto fac = [&](int kind, i64 a, i64 b, const V &obs, int src, i64 third = 0) {
        i64 fl = (r.p(0.3) ? sut::F_ALTCTOR : 0) | (c.probes ? sut::F_PROBE : 0);
        Op o("fac", {tag++, kind, rk(), a, b, fl});
        V ob = obs; if (c.outliers > 0 && o.at(2) && kind < FPT2PL && r.p(c.outliers)) { ob += noise(r, (int)ob.size(), 0.4); if (kind == F1P1L2) ob(0) = std::max(0.5, ob(0)); if (kind == F1P1PL) ob(3) = std::max(0.5, ob(3)); }
        app(o.d, ob); if (kind >= FLC2) o.i.push_back(third);
        if (kind == FPT2PL) { o.d.push_back(std::pow(10.0, r.u(0, c.wspread))); }
        else { auto W = flat(rand_info(r, fdim(kind), c.wspread)); o.d.insert(o.d.end(), W.begin(), W.end()); }
        std::vector<i64> deps; for (int k = 0; k < fnodes(kind); ++k) deps.push_back(ftag(o, k));
        w.msgs.push_back({o, src, now, deps}); return o.i[0];
    };
    auto nz = [&](int n) { return noise(r, n, c.noise); };
    auto rel2 = [&](i64 a, i64 b) { M x = w.truth[a], y = w.truth[b]; double cc = std::cos(x(2)), s = std::sin(x(2)), dx = y(0) - x(0), dy = y(1) - x(1);
        V z(3); z << cc * dx + s * dy, -s * dx + cc * dy, wrap(y(2) - x(2)); return V(z + nz(3)); };
    auto rel3 = [&](i64 a, i64 b) { return V(logT(invT(M4(w.truth[a])) * M4(w.truth[b])) + nz(6)); };
    auto tie = [&](std::vector<i64> v, int src) {
        r.shuffle(v); int kind = w.kind[v[0]] == P2 || w.kind[v[0]] == L2 ? FLC2 : FLC3, D = fdim(kind); V z = V::Zero(D + 3);
        for (int k = 0; k < 3; ++k) { z(D + k) = (r.p(0.5) ? 1 : -1) * r.u(0.5, 2); z.head(D) += z(D + k) * position(D, w.truth[v[k]]); } z.head(D) += nz(D);
        fac(kind, v[0], v[1], z, src, v[2]);
    };
    for (int rb = 0; rb < c.robots; ++rb) {
        bool is3 = c.mode == 1 || (c.mode == 2 && (rb % 2 ? true : c.robots > 1 ? false : r.p(0.5)));
        std::vector<i64> path;
        if (!is3) {
            M x(3, 1); x << r.u(-3, 3), r.u(-3, 3), r.u(-3.1, 3.1);
            for (int k = 0; k < c.poses; ++k) {
                now += r.u(5, 40);
                bool first = k == 0, anchor = first ? r.p(0.5) : r.p(c.p_anchor * 0.5);
                i64 t = node(P2, x, anchor, rb);
                if (first && !anchor) { fac(F1P2, t, 0, V(V(x) + nz(3)), rb); }
                else if (r.p(0.1)) fac(F1P2, t, 0, V(V(x) + nz(3)), rb);
                if (k) {
                    i64 p = path.back();
                    int kind = c.odo && r.p(0.4) ? FODO : F2P2;
                    if (kind == FODO) {
                        M px = w.truth[p]; double dx = x(0) - px(0), dy = x(1) - px(1), th = std::atan2(dy, dx);
                        V z(3); double r1 = wrap(th - px(2)); z << r1, std::sqrt(dx * dx + dy * dy), wrap(x(2) - th);
                        z += nz(3); fac(FODO, p, t, z, rb);
                        // FODO requires the origin to be registered first
                        for (auto &m : w.msgs) if (m.op.k == "node" && m.op.i[0] == t) m.deps.push_back(p);
                    } else if (r.p(c.p_rev)) fac(F2P2, t, p, rel2(t, p), rb);
                    else fac(F2P2, p, t, rel2(p, t), rb);
                    if (k > 1 && r.p(c.loops)) { i64 q = path[r.i((int)path.size() - 1)]; if (r.p(0.5)) fac(F2P2, q, t, rel2(q, t), rb); else fac(F2P2, t, q, rel2(t, q), rb); }
                }
                path.push_back(t);
                x(2) = wrap(x(2) + r.u(-1.2, 1.2)); double d = r.u(0.4, 1.5); x(0) += d * std::cos(x(2)); x(1) += d * std::sin(x(2)); x(2) = wrap(x(2) + r.u(-1, 1));
            }
            for (int m = 0; m < c.marks; ++m) {
                now += r.u(1, 10);
                i64 p0 = path[r.i((int)path.size())]; M px = w.truth[p0]; M l(2, 1); double a = r.u(-3.1, 3.1), d = r.u(1, 4); l << px(0) + d * std::cos(a), px(1) + d * std::sin(a);
                bool ok = true; for (i64 p : path) { M q = w.truth[p]; if (std::hypot(q(0) - l(0), q(1) - l(1)) < 0.8) ok = false; }
                if (!ok) continue;
                i64 t = node(L2, l, r.p(c.p_anchor * 0.7), rb); int n = r.i(1, 3 + (path.size() > 15 ? (int)path.size() / 3 : 0));
                for (int j = 0; j < n; ++j) {
                    i64 p = j == 0 ? p0 : path[r.i((int)path.size())]; M q = w.truth[p]; double dx = l(0) - q(0), dy = l(1) - q(1);
                    V z(2); z << std::hypot(dx, dy), wrap(std::atan2(dy, dx) - q(2)); z += nz(2); fac(F1P1L2, p, t, z, rb);
                }
            }
        } else {
            V6 xi; for (int k = 0; k < 3; ++k) xi(k) = r.u(-1.7, 1.7); for (int k = 3; k < 6; ++k) xi(k) = r.u(-3, 3);
            M4 T = expT(xi);
            for (int k = 0; k < c.poses; ++k) {
                now += r.u(5, 40);
                bool first = k == 0, anchor = first ? r.p(0.5) : r.p(c.p_anchor * 0.5);
                i64 t = node(P3, T, anchor, rb);
                if (first ? !anchor : r.p(0.1)) fac(F1P3, t, 0, V(logT(T) + nz(6)), rb);
                if (k) {
                    i64 p = path.back();
                    if (r.p(c.p_rev)) fac(F2P3, t, p, rel3(t, p), rb); else fac(F2P3, p, t, rel3(p, t), rb);
                    if (k > 1 && r.p(c.loops)) { i64 q = path[r.i((int)path.size() - 1)]; if (r.p(0.5)) fac(F2P3, q, t, rel3(q, t), rb); else fac(F2P3, t, q, rel3(t, q), rb); }
                }
                if (c.pt2pl && r.p(0.3)) for (int j = r.i(1, 2); j > 0; --j) {
                    V z(9); V3 x, n; for (int q = 0; q < 3; ++q) { x(q) = r.u(-3, 3); n(q) = r.n(); } n /= n.norm();
                    V3 p = T.topLeftCorner<3, 3>() * x + T.topRightCorner<3, 1>();
                    V3 any(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)); V3 y = p + (any - n * n.dot(any));   // another point of the plane
                    z << x, V3(y + n * c.noise * r.n()), n; fac(FPT2PL, t, 0, z, rb);
                }
                path.push_back(t);
                V6 s; for (int q = 0; q < 3; ++q) s(q) = r.u(-1.0, 1.0); for (int q = 3; q < 6; ++q) s(q) = r.u(-1.2, 1.2);
                T = T * expT(s); M3 R = T.topLeftCorner<3, 3>(); T.topLeftCorner<3, 3>() = expR(logR(R));
            }
            for (int m = 0; m < c.marks; ++m) {
                now += r.u(1, 10);
                if (c.planes && r.p(0.4)) {
                    // plane whose local distance is comfortably positive from every pose
                    V3 n; for (int q = 0; q < 3; ++q) n(q) = r.n(); n /= n.norm(); double lo = 1e9;
                    for (i64 p : path) lo = std::min(lo, n.dot(V3(M4(w.truth[p]).topRightCorner<3, 1>())));
                    double d = -lo + r.u(1.5, 4); M pl(4, 1); pl << n(0), n(1), n(2), d;
                    i64 t = node(PL, pl, r.p(c.p_anchor * 0.7), rb); int k = r.i(1, 3 + (path.size() > 15 ? (int)path.size() / 3 : 0));
                    for (int j = 0; j < k; ++j) { i64 p = path[r.i((int)path.size())]; V z = M4(w.truth[p]).transpose() * Eigen::Vector4d(pl); z += nz(4); if (z(3) < 0.5) z(3) = 0.5; fac(F1P1PL, p, t, z, rb); }
                } else {
                    i64 p0 = path[r.i((int)path.size())]; M4 X = w.truth[p0]; V3 z0(r.u(-4, 4), r.u(-4, 4), r.u(-4, 4));
                    M l = X.topLeftCorner<3, 3>() * z0 + X.topRightCorner<3, 1>();
                    i64 t = node(L3, l, r.p(c.p_anchor * 0.7), rb); int k = r.i(1, 3 + (path.size() > 15 ? (int)path.size() / 3 : 0));
                    for (int j = 0; j < k; ++j) { i64 p = j == 0 ? p0 : path[r.i((int)path.size())]; M4 I = invT(M4(w.truth[p])); V z = I.topLeftCorner<3, 3>() * V3(l) + I.topRightCorner<3, 1>(); z += nz(3); fac(F1P1L3, p, t, z, rb); }
                }
            }
        }
        if (c.user) { std::vector<i64> v; for (auto &m : w.msgs) if (m.op.k == "node" && m.src == rb && m.op.at(1) != PL) v.push_back(m.op.i[0]);
            for (int k = v.size() < 3 ? 0 : r.i(1, 3); k > 0; --k) { r.shuffle(v); now += r.u(1, 10); tie({v[0], v[1], v[2]}, rb); } }
    }
    return w;
}
Net random_net(Rng &r) {
    Net n; n.loss = r.p(0.5) ? 0 : r.u(0, 0.4); n.dup = r.p(0.5) ? 0 : r.u(0, 0.4); n.delay = r.u(1, 60); n.jitter = r.p(0.3) ? 0 : r.u(0, 300); n.partitions = r.p(0.3) ? r.i(1, 2) : 0; n.fifo = r.p(0.2); n.timeout = r.u(40, 200);
    return n;
}
// discrete-event network: every message is re-sent until acknowledged
std::vector<Op> deliver(Rng &r, const World &w, const Net &n, Stats &st) {
    struct Ev { double t; u64 seq; int type; size_t msg; bool operator<(const Ev &o) const { return t > o.t || (t == o.t && seq > o.seq); } };
    enum { SEND, ARRIVE, ACK, TIMEOUT };
    std::priority_queue<Ev> q; u64 seq = 0; size_t N = w.msgs.size();
    std::vector<char> acked(N, 0), applied(N, 0); std::vector<int> tries(N, 0);
    double end = N ? w.msgs.back().t : 0; std::vector<std::pair<double, double>> part[8];
    for (int k = 0; k < n.partitions; ++k) { double a = r.u(0, end + 50); part[r.i(2)].push_back({a, a + r.u(50, 600)}); st.add("partitions"); }
    double last[8] = {0};
    for (size_t k = 0; k < N; ++k) q.push({w.msgs[k].t, seq++, SEND, k});
    auto cut = [&](int s, double t) { for (auto &p : part[s & 7]) if (t >= p.first && t < p.second) return true; return false; };
    std::vector<size_t> pending; std::set<i64> have; std::vector<Op> out; double now = 0;
    auto ready = [&](size_t k) { for (i64 d : w.msgs[k].deps) if (!have.count(d)) return false; return true; };
    auto apply = [&](size_t k) { applied[k] = 1; have.insert(w.msgs[k].op.i[0]); out.push_back(w.msgs[k].op); };
    while (!q.empty()) {
        Ev e = q.top(); q.pop(); now = std::max(now, e.t); const Msg &m = w.msgs[e.msg];
        switch (e.type) {
        case SEND: {
            ++tries[e.msg]; st.add("net_sent"); bool lost = (tries[e.msg] < 12 && r.p(n.loss)) || cut(m.src, e.t);
            if (lost) st.add(cut(m.src, e.t) ? "net_partitioned" : "net_lost");
            int copies = r.p(n.dup) ? 2 : 1; if (copies > 1) st.add("net_dup");
            for (int c = 0; c < copies && !lost; ++c) { double a = e.t + n.delay + r.u(0, n.jitter); if (n.fifo) { a = std::max(a, last[m.src & 7] + 1e-3); last[m.src & 7] = a; } q.push({a, seq++, ARRIVE, e.msg}); }
            q.push({e.t + n.timeout, seq++, TIMEOUT, e.msg}); break; }
        case TIMEOUT: if (!acked[e.msg] && tries[e.msg] < 60) { st.add("net_resend"); q.push({e.t, seq++, SEND, e.msg}); } break;
        case ARRIVE: {
            if (applied[e.msg]) { out.push_back(Op("dup", {m.op.i[0]})); st.add("redelivered"); }
            else if (ready(e.msg)) {
                apply(e.msg); bool again = true;
                while (again) { again = false; for (size_t j = 0; j < pending.size(); ++j) if (!applied[pending[j]] && ready(pending[j])) { size_t k = pending[j]; pending.erase(pending.begin() + j); apply(k); again = true; break; } }
            } else { bool in = false; for (size_t j : pending) if (j == e.msg) in = true; if (!in) { pending.push_back(e.msg); st.add("net_reordered"); } }
            if ((tries[e.msg] < 12 && r.p(n.loss)) || cut(m.src, e.t)) st.add("ack_lost"); else q.push({e.t + n.delay, seq++, ACK, e.msg}); break; }
        case ACK: acked[e.msg] = 1; break;
        }
    }
    for (size_t k = 0; k < N; ++k) if (!applied[k] && ready(k)) apply(k);     // links heal at the end
    for (size_t k = 0; k < N; ++k) if (!applied[k] && ready(k)) apply(k);
    st.sim_ms += now; return out;
}
std::vector<Op> arrival_order(Rng &r, const World &w, Stats &st) {
    Net n = random_net(r); n.jitter = r.p(0.2) ? 50 : r.u(100, 2000); auto v = deliver(r, w, n, st); std::vector<Op> o; for (auto &x : v) if (x.k != "dup") o.push_back(x); return o;
}
}
