// C24: histories for the Python front end and what the C++ library answers to each operation.
#include "planes.hpp"
#include "common.hpp"
#include "mrob/create_points.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/SE3.hpp"
#include "mrob/SE3cov.hpp"
#include <iostream>
#include <fstream>
using namespace planes;
typedef world::Cfg Cfg;
static V6 rxi24(Rng &r, double rot, double tr) { V3 a(r.n(), r.n(), r.n()), b(r.n(), r.n(), r.n()); a *= rot * r.u() / std::max(1e-9, a.norm()); b *= tr * r.u() / std::max(1e-9, b.norm()); V6 x; x << a, b; return x; }
static Trace gen24(Rng &r, int size, Stats &st) {
    Trace t; int n = r.p(0.6) ? 1 : r.i(2, 3); std::vector<Trace> prog; double pf = r.p(0.3) ? 0 : r.u(0, 0.25);
    for (int k = 0; k < n; ++k) {
        Trace u; Cfg c = world::random_cfg(r, size && n == 1 ? 1 : 0); c.init = r.p(0.3) ? 0.4 : 0.05; c.robust = false; c.user = false; GenOpt o; o.p_solve = 0.08; o.gkind = sut::SPARSE; o.dup = false; o.max_iters = 6; Trace g = gen_session(r, c, o, st);
        int rob = r.p(0.6) ? 0 : r.i(1, 3); u.push_back(Op("graph", {rob, r.i(2)}));
        for (auto &q : g) {
            if (q.k == "cfg") continue; if (q.k == "fac") { q.i[2] = rob; q.i[5] &= sut::F_INIT; if (q.at(1) == ref::FODO) q.i[5] |= sut::F_INIT; } if (q.k == "node") q.i[3] = 0; if (q.k == "solve" && r.p(0.25)) { int m = r.i(2); q.i = {m, 30, 1}; q.d = {1e-6, 1e-2}; st.add("solve_defaults"); }
            u.push_back(q); if (r.p(0.15)) u.push_back(Op("q", {1 << r.i(9)})); if (r.p(0.04)) u.push_back(Op("badfac", {r.i(9), r.p(0.5) ? r.i(0, 3) : r.i(1000000)})); if (q.k == "solve" && r.p(0.6)) u.push_back(Op("q", {r.i(512)}));
            if (r.p(0.03)) { Op q2("geo", {r.i(13)}); double rot = r.p(0.15) ? 0 : r.p(0.2) ? M_PI : r.u(0, 3.1); for (int m = 0; m < 2; ++m) { V6 x = rxi24(r, rot, 3); for (int j = 0; j < 6; ++j) q2.d.push_back(x(j)); } u.push_back(q2); }
            if (r.p(0.03)) { int m = r.p(0.1) ? r.i(0, 3) : r.i(3, 12); Op q2("cloud", {r.i(6), m}); V6 x = rxi24(r, 2, 3); M4 T = ref::expT(x); for (int a = 0; a < m; ++a) { V3 p(r.n(), r.n(), r.n()), q3 = T.topLeftCorner<3, 3>() * p + T.topRightCorner<3, 1>() + 0.01 * V3(r.n(), r.n(), r.n()); for (int j = 0; j < 3; ++j) q2.d.push_back(p(j)); for (int j = 0; j < 3; ++j) q2.d.push_back(q3(j)); q2.d.push_back(r.u(0.2, 2)); } u.push_back(q2); }
            if (r.p(0.015)) u.push_back(Op("scene", {r.i(3, 20), r.i(1, 4), r.i(2, 5), r.p(0.2) ? 0 : r.i(2, 7), (i64)(r.next() >> 8)}, {r.p(0.5) ? 0 : 0.01, 0.1}));
        }
        if (r.p(0.4)) { PCfg pc = random_cfg(r, 0); pc.poses = std::min(pc.poses, 5); PW w = make_world(r, pc); std::vector<Op> z; z.push_back(Op("rnew", {pc.nplanes, pc.poses})); for (int id = 0; id < pc.nplanes; ++id) z.push_back(Op("radd", {7 * id % 11})); 
            for (auto &q : points(r, w, 1, st)) { z.push_back(Op("rpt", {7 * q.at(0) % 11, q.at(1)}, {q.fd(0), q.fd(1), q.fd(2)})); if (r.p(0.03)) z.push_back(Op("rq", {r.i(32)})); if (r.p(0.02)) z.push_back(Op("rbad", {r.i(20, 40), q.at(1)})); if (r.p(0.01)) z.push_back(Op("radd", {7 * q.at(0) % 11})); }
            int m = r.i(1, 5); while (m--) { if (r.p(0.4)) { Op q("rlast"); V6 x = rxi24(r, 1, 2); for (int j = 0; j < 6; ++j) q.d.push_back(x(j)); z.push_back(q); } z.push_back(Op("rsolve", {r.p(0.1) ? 0 : r.i(2, 7), r.i(2)})); z.push_back(Op("rq", {r.i(32)})); if (r.p(0.2)) z.push_back(Op("rreset")); }
            size_t pos = 0; Trace v2; for (auto &q : u) { v2.push_back(q); size_t b = z.size() * r.u() * 6 / (u.size() + 1); if (v2.size() > 1) while (b-- && pos < z.size()) v2.push_back(z[pos++]); } while (pos < z.size()) v2.push_back(z[pos++]); u = v2; }
        for (auto &q : u) q.k = fmt("%d.", k) + q.k; prog.push_back(u);
    }
    std::vector<size_t> at(n, 0); size_t left = 0; for (auto &u : prog) left += u.size();
    while (left) {
        int k = r.i(n); if (at[k] >= prog[k].size()) continue; int burst = r.i(1, 6); while (burst-- && at[k] < prog[k].size()) {
            if (r.p(pf)) switch (r.i(5)) { case 0: t.push_back(Op("py.gc", {r.i(3)})); break; case 1: t.push_back(Op("py.threshold", {r.i(4)})); break; case 2: case 3: t.push_back(Op("py.oom", {(i64)std::pow(10.0, r.u(0, 1.7)), r.i(2)})); break; default: t.push_back(Op("py.wipe")); }
            if (r.p(0.4)) t.push_back(Op("py.layout", {r.i(7)})); t.push_back(prog[k][at[k]++]); --left; }
        if (at[k] >= prog[k].size() && r.p(0.5)) t.push_back(Op("py.drop", {k}));
    }
    for (int k = 0; k < n; ++k) t.push_back(Op("py.drop", {k})); return t;
}
static void put(FILE *f, const std::vector<double> &v) { fprintf(f, "="); for (double x : v) fprintf(f, " %a", x); fprintf(f, "\n"); }
static void add_m(std::vector<double> &v, const M &m) { v.push_back(m.rows()); v.push_back(m.cols()); for (int a = 0; a < m.rows(); ++a) for (int b = 0; b < m.cols(); ++b) v.push_back(m(a, b)); }
static void add_T(std::vector<double> &v, const mrob::SE3 &T) { M4 m = to4(T); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) v.push_back(m(a, b)); }
static std::vector<double> T16(const std::vector<double> &d, size_t o) { V6 x; for (int k = 0; k < 6; ++k) x(k) = k + o < d.size() ? d[k + o] : 0; M4 T = ref::expT(x); std::vector<double> v; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) v.push_back(T(a, b)); return v; }
static mrob::SE3 mk16(const std::vector<double> &v) { mrob::Mat4 m; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) m(a, b) = v[4 * a + b]; return mrob::SE3(m); }
struct G24 { std::unique_ptr<Session> s; std::unique_ptr<PReg> reg; int T = 0; std::set<i64> pl; int n_nodes = 0, n_facs = 0; };
// prints each applied operation (poses as matrices) followed by "= values" or "! " (an error is expected)
static void ref24(const Trace &t, FILE *f) {
    Stats quiet; Ctx cx(quiet); std::map<int, G24> gs;
    for (auto &o0 : t) {
        if (o0.k.size() < 3 || o0.k[1] != '.' || o0.k[0] == 'p') { fprintf(f, "%s\n", o0.str().c_str()); continue; }
        int k = o0.k[0] - '0'; Op o = o0; o.k = o0.k.substr(2); auto pr = [&](const Op &q) { Op w = q; w.k = fmt("%d.", k) + q.k; fprintf(f, "%s\n", w.str().c_str()); }; std::vector<double> v;
        if (o.k == "graph") { gs[k].s.reset(new Session(cx, sut::SPARSE)); pr(o); put(f, {0, 0}); continue; }
        if (o.k == "geo") {
            Op w = o; w.d = T16(o.d, 0); auto b = T16(o.d, 6); w.d.insert(w.d.end(), b.begin(), b.end()); for (int j = 0; j < 6; ++j) w.d.push_back(o.fd(j)); pr(w); mrob::SE3 A = mk16(T16(o.d, 0)), B = mk16(b); mrob::Mat61 x; for (int j = 0; j < 6; ++j) x(j) = o.fd(j); rt::Sut z;
            switch (o.at(0)) {
            case 0: add_T(v, A * B); break; case 1: add_T(v, A.inv()); break; case 2: add_m(v, M(A.ln_vee())); break; case 3: add_m(v, M(A.adj())); break;
            case 4: v = {A.distance(B), A.distance_rotation(B), A.distance_trans(B)}; break; case 5: { mrob::SE3 C(A); C.update_lhs(x); add_T(v, C); C.update_rhs(x); add_T(v, C); break; }
            case 6: { mrob::SE3 C(x); add_T(v, C); add_m(v, M(C.transform(mrob::Mat31(x.head(3))))); break; } 
            case 8: { mrob::Mat3 Ra = A.R(), Rb = B.R(); mrob::SO3 R(Ra), S(Rb), Q(mrob::Mat31(x.head(3))); mrob::Mat31 y = x.tail(3); add_m(v, M(R.mul(S).R())); add_m(v, M(R.adj())); v.push_back(R.distance(S)); add_m(v, M(Q.R())); Q.update_lhs(y); add_m(v, M(Q.R())); Q.update_rhs(y); add_m(v, M(Q.R())); mrob::SO3 C(Q); add_m(v, M(C.ln_vee())); break; }
            case 9: { mrob::Mat31 h = x.head(3); add_m(v, M(mrob::hat3(h))); add_m(v, M(mrob::hat6(x))); add_m(v, M(mrob::curly_wedge(x))); mrob::Mat4 m = A.T(); v.push_back(mrob::isSE3(m)); m(0, 0) += x(0); v.push_back(mrob::isSE3(m)); mrob::Mat3 m3 = m.topLeftCorner<3, 3>(); v.push_back(mrob::isSO3(m3)); add_m(v, M(mrob::rpy_to_so3(h))); mrob::Mat41 q = mrob::Mat41(x(0), x(1), x(2), 0.5 + std::abs(x(3))).normalized(); add_m(v, M(mrob::quat_to_so3(q))); break; }
            case 10: { mrob::MatX P(2, 3); for (int j = 0; j < 6; ++j) P(j / 3, j % 3) = x(j); add_m(v, M(A.transform_array(P))); mrob::Mat3 Ra = A.R(); mrob::SE3 C(mrob::SO3(Ra), mrob::Mat31(x.tail(3))); add_T(v, C); add_m(v, M(C.t())); v.push_back(A.distance()); v.push_back(A.distance_rotation()); v.push_back(A.distance_trans()); break; }
            case 11: case 12: { mrob::Mat6 P1 = mrob::Mat6::Identity() * 0.1, P2 = x * x.transpose() * 0.01 + mrob::Mat6::Identity() * 0.02; mrob::SE3Cov c1(A, P1), c2(B, P2); auto put2 = [&](const mrob::SE3Cov &c) { add_T(v, c); add_m(v, M(c.cov())); }; if (o.at(0) == 11) { put2(c1.compound_2nd_order(c2)); put2(c1.compound_2nd_order(B, P2)); put2(c1.mul(c2)); } else { put2(c1.compound_4th_order(c2)); put2(c1.compound_4th_order(B, P2)); put2(c1 * c2); mrob::SE3Cov c3(c2); put2(c3); } break; }
            default: { mrob::Mat3 Rm = A.R(); mrob::SO3 R(Rm); add_m(v, M(mrob::so3_to_quat(Rm))); add_m(v, M(R.ln_vee())); add_m(v, M(R.inv().R())); } }
            put(f, v); continue; }
        if (o.k == "cloud") {
            int n = (int)std::min<i64>(o.at(1), o.d.size() / 7); if (n < 0) continue; mrob::MatX X(n, 3), Y(n, 3), C(3 * n, 3); mrob::MatX1 w(n); for (int a = 0; a < n; ++a) { for (int j = 0; j < 3; ++j) { X(a, j) = o.d[7 * a + j]; Y(a, j) = o.d[7 * a + 3 + j]; } w(a) = o.d[7 * a + 6]; C.block(3 * a, 0, 3, 3) = M3::Identity() * w(a); }
            mrob::SE3 T; if (o.at(0) >= 3 && n < 3) continue; pr(o); rt::Sut z; switch (o.at(0)) { case 0: mrob::PCRegistration::arun(X, Y, T); add_T(v, T); break; case 1: mrob::PCRegistration::gicp(X, Y, C, C, T); add_T(v, T); break; case 2: mrob::PCRegistration::weighted_point(X, Y, w, T); add_T(v, T); break; case 3: add_m(v, M(mrob::estimate_plane(X))); break; case 4: add_m(v, M(mrob::estimate_normal(X))); break; default: add_m(v, M(mrob::estimate_centroid(X))); }
            put(f, v); continue; }
        if (o.k == "scene") {
            rt::clock_set(5000000000LL, 1500000000000000000LL + (o.at(4) & 0xffffffffffffLL), 1000, 0); pr(o); rt::Sut z; mrob::CreatePoints s(o.at(0), o.at(1), o.at(2), o.fd(0), o.fd(1)); PReg g; s.create_plane_registration(g); int T = (int)o.at(2);
            for (int a = 0; a < T; ++a) { auto pc = s.get_point_cloud(a); auto id = s.get_point_plane_ids(a); v.push_back(pc.size()); for (auto &p : pc) for (int j = 0; j < 3; ++j) v.push_back(p(j)); for (auto x : id) v.push_back(x); add_T(v, s.get_ground_truth_pose(a)); }
            add_T(v, s.get_ground_truth_last_pose()); v.push_back(g.get_current_error()); g.solve((mrob::PlaneRegistration::SolveMode)(o.at(3)), false); v.push_back(g.get_current_error()); for (int a = 0; a < T; ++a) add_T(v, g.get_trajectory(a)); add_T(v, g.get_last_pose()); v.push_back(g.get_number_poses()); auto e = g.print_evaluate(); for (size_t j = 0; j < e.size(); ++j) if (j != 4) v.push_back(e[j]); g.reset_solution(); add_T(v, g.get_last_pose());
            put(f, v); continue; }
        if (o.k[0] == 'r' && o.k != "rs") {
            G24 &G = gs[k]; 
            if (o.k == "rnew") { if (o.at(1) < 2 || o.at(1) > 50 || G.reg) continue; pr(o); rt::Sut z; G.reg.reset(new PReg); G.T = (int)o.at(1); G.reg->set_number_planes_and_poses(o.at(0), o.at(1)); put(f, {(double)G.reg->get_number_poses()}); continue; }
            if (!G.reg) continue; PReg &g = *G.reg; 
            if (o.k == "radd") { pr(o); rt::Sut z; g.add_new_plane(o.at(0)); G.pl.insert(o.at(0)); put(f, {}); }
            else if (o.k == "rpt") { if (!G.pl.count(o.at(0)) || o.at(1) < 0 || o.at(1) >= G.T) continue; pr(o); rt::Sut z; mrob::Mat31 p(o.fd(0), o.fd(1), o.fd(2)); g.plane_push_back_point(o.at(0), o.at(1), p); put(f, {}); }
            else if (o.k == "rbad") { if (G.pl.count(o.at(0))) continue; pr(o); rt::Sut z; fprintf(f, "! %a\n", g.get_current_error()); }
            else if (o.k == "rlast") { Op w = o; w.d = T16(o.d, 0); pr(w); rt::Sut z; mrob::SE3 L = mk16(w.d); g.set_last_pose(L); add_T(v, g.get_last_pose()); put(f, v); }
            else if (o.k == "rsolve") { int tot = 0; for (int t = 0; t < G.T; ++t) { auto pc = g.get_point_cloud(t); tot += pc.size(); } if (tot < 6) continue; pr(o); rt::Sut z; v.push_back(g.solve((mrob::PlaneRegistration::SolveMode)o.at(0), o.at(1))); v.push_back(g.get_current_error()); put(f, v); }
            else if (o.k == "rreset") { pr(o); rt::Sut z; g.reset_solution(); add_T(v, g.get_last_pose()); put(f, v); }
            else if (o.k == "rq") { pr(o); rt::Sut z; int m = (int)o.at(0); if (m & 1) v.push_back(g.get_current_error()); if (m & 2) for (int t = 0; t < G.T; ++t) add_T(v, g.get_trajectory(t)); if (m & 4) for (int t = 0; t < G.T; ++t) { auto pc = g.get_point_cloud(t); v.push_back(pc.size()); for (auto &p : pc) for (int j = 0; j < 3; ++j) v.push_back(p(j)); } if (m & 16) g.print(true); if (m & 8) { v.push_back(g.get_number_poses()); add_T(v, g.get_last_pose()); } put(f, v); }
            continue; }
        if (!gs.count(k) || !gs[k].s) continue; Session &s = *gs[k].s;
        if (o.k == "node" || o.k == "fac") {
            if (!s.can(o)) continue; s.add(o); Op w = o; bool T = o.k == "node" ? o.at(1) == ref::P3 : o.at(1) == ref::F1P3 || o.at(1) == ref::F2P3; if (T) { w.d = T16(o.d, 0); for (size_t j = 6; j < o.d.size(); ++j) w.d.push_back(o.d[j]); }
            if (o.k == "fac") { w.i[3] = s.g->node_id(o.at(3)); if (ref::fnodes((int)o.at(1)) > 1) w.i[4] = s.g->node_id(o.at(4)); } pr(w);
            v = {(double)(o.k == "node" ? s.g->node_id(o.at(0)) : s.g->fac_id(o.at(0))), (double)s.g->n_nodes(), (double)s.g->n_facs()}; for (auto &x : s.g->states()) add_m(v, x); put(f, v); continue; }
        if (o.k == "badfac") { Op w = o; w.i = {o.at(0), (i64)s.ntags.size() + o.at(1)}; pr(w); fprintf(f, "! %lld %lld\n", (long long)s.g->n_nodes(), (long long)s.g->n_facs()); continue; }
        if (o.k == "solve") { s.sync(); if (!states_sane(s, 1e6) || !s.mirror.state_dim() || s.mirror.facs.empty() || !s.wellposed()) continue; pr(o); s.g->solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); ++s.nsolves; s.sync(); for (auto &x : s.g->states()) add_m(v, x); v.push_back(s.g->chi2(true)); put(f, v); continue; }
        if (o.k == "q") {
            i64 m = o.at(0); if (!s.nsolves) m &= ~(i64)(8 | 16 | 32 | 64 | 128); pr(Op("q", {m})); if (m & 1) for (auto &x : s.g->states()) add_m(v, x); if (m & 2) v.push_back(s.g->chi2(true)); if (m & 4) { v.push_back(s.g->n_nodes()); v.push_back(s.g->n_facs()); }
            if (m & 8) add_m(v, s.g->A()); if (m & 16) add_m(v, s.g->W()); if (m & 32) add_m(v, s.g->L()); if (m & 64) add_m(v, M(s.g->b())); if (m & 128) add_m(v, M(s.g->chi2_array())); put(f, v); continue; }
    }
    fprintf(f, "end\n");
}
void py_gen_out(u64 seed, int size, FILE *f) { Stats st; Rng r(seed); for (auto &o : gen24(r, size, st)) fprintf(f, "%s\n", o.str().c_str()); for (auto &x : st.c) fprintf(f, "#c %s %lld\n", x.first.c_str(), (long long)x.second); }
void py_ref_out(const Trace &t, FILE *f) { ref24(t, f); }
