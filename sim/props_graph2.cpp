// C08 C09 C18 C19 C20 C21 C22 C23
#include "common.hpp"
#include "planes.hpp"
#include "mrob/pc_registration.hpp"
using namespace ref;
typedef world::Cfg Cfg;
static const char *SD = "FGraph, FGraphSolve, FGraphSolveDense, Optimizer, all nodes and factors, SE3/SO3 (real code)";
static V vec_of(const std::vector<double> &d, int n) { V v(n); for (int k = 0; k < n; ++k) v(k) = k < (int)d.size() ? d[k] : 0; return v; }
// ------------------------------------------------------------------ C08
static Trace gen08(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.init = r.p(0.7) ? 0.05 : 0.3; GenOpt g; g.p_solve = 0.1; g.p_set = 0.04; Trace t = gen_session(r, c, g, st); int gk = cfg_kind(t); std::vector<std::pair<i64, i64>> nd;
    for (auto &o : t) if (o.k == "node" && !o.at(2)) nd.push_back({o.at(0), o.at(1)});
    int n = r.i(1, 6);
    for (int k = 0; k < n && !nd.empty(); ++k) {
        auto u = nd[r.i((int)nd.size())]; double mag = std::pow(10.0, r.u(-9, 1)); Op q("updn", {u.first, r.i(2), r.p(0.01) ? (i64)std::pow(10.0, r.u(4.5, 5.5)) : r.p(0.1) ? r.i(200, 3000) : r.i(1, 60)});
        for (int j = 0; j < ndim((int)u.second); ++j) q.d.push_back((j < 3 ? std::min(mag, 3.0) : mag) * r.n()); if (q.i[2] > 3000) q.i[1] = 0; t.push_back(q);
        if (r.p(0.6)) { int m = r.p(0.15) ? r.i(50, 300) : r.i(1, 5); t.push_back(Op("solven", {gk == sut::DENSE ? r.i(3) : r.i(2), 1, m}, {1e-6, 1e-2})); }
    }
    return t;
}
static void run08(const Trace &t, Ctx &cx) {
    Session a(cx, cfg_kind(t)); bool aux = false; for (auto &o : t) if ((o.k == "updn" || o.k == "upd") && o.at(1)) aux = true;   // updating from the auxiliary state does not renew the rotation
    double tol = aux ? 1e-9 : 1e-13;
    for (auto &o : t) {
        if (o.k == "updn") {
            i64 tg = o.at(0); if (!a.mirror.idx.count(tg)) continue; Node &n = a.mirror.n(tg); if (n.anchor) continue; V dx = vec_of(o.d, ndim(n.kind));
            if (n.kind == PL && dx.norm() > 0.2) dx *= 0.2 / dx.norm();
            for (i64 k = 0; k < o.at(2); ++k) {
                M before = n.x; V e = (k % 3 == 2) ? V(-dx) : dx;
                if (n.kind == PL && (before + e).topRows(3).norm() < 0.2) break;
                M want = retract(n.kind, before, e);
                a.g->node_update(tg, e, o.at(1)); n.x = a.g->node_state(tg); double sc = 1 + before.cwiseAbs().maxCoeff() + e.cwiseAbs().maxCoeff();
                double d = state_diff(n.kind, n.x, want); if (!(d <= 2e-8 * sc)) fail("update-wrong", fmt("update number %lld of a node of kind %d gives %s, expected %s", (long long)k, n.kind, mstr(n.x).c_str(), mstr(want).c_str()));
            }
            cx.st.add("updates", o.at(2)); a.check_valid("after updates", tol);
        } else if (o.k == "solven") {
            for (i64 k = 0; k < o.at(2); ++k) { if (k < 3 || k % 20 == 0) { a.sync(); if (!a.wellposed() || !states_sane(a)) break; } a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); }
            a.sync(); if (states_sane(a, 1e6)) a.check_valid("after repeated solves", tol);
        } else { bool ok = exec(a, o); if (ok && (o.k == "solve" || o.k == "node")) { a.sync(); if (states_sane(a, 1e6)) a.check_valid(o.k.c_str(), tol); } }
    }
    a.digest_states();
}
static Reg r08({"C08", gen08, run08, 1800, 50000, 3000000000ULL, SD, "thousands of updates and solves of one session, tiny and huge increments, network faults while building"});
// ------------------------------------------------------------------ C09
static Trace gen09(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.robust = r.p(0.4); c.init = r.p(0.3) ? 0.5 : 0.05; GenOpt g; g.p_solve = 0.15; g.p_query = 0.25; g.p_upd = 0.05; g.p_set = 0.04; g.tail = 3; Trace t = gen_session(r, c, g, st);
    if (r.p(0.5)) {      // end in the middle, right after questions that evaluate nothing
        std::vector<size_t> at; for (size_t k = 0; k < t.size(); ++k) if (t[k].k == "solve") at.push_back(k);
        if (!at.empty()) { t.resize(at[r.i(at.size())] + 1); int n = r.i(1, 3); while (n--) { Op q = query_op(r); q.i[0] &= ~(i64)(2 | 1024 | (cfg_kind(t) == sut::DENSE ? 4 : 0)); t.push_back(q); } }
    }
    return t;
}
static void run09(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); Session a(cx, cfg_kind(t)), b(cq, cfg_kind(t));
    bool kept = true;    // the errors stored by the last solve were not asked to be evaluated again
    for (auto &o : t) {
        if (o.k == "q" && (o.at(0) & (2 | 1024 | (a.gkind == sut::DENSE ? 4 : 0)))) kept = false;
        if (o.k == "q") { exec(a, o); if (o.at(0) & 128) a.check_counts("in a query"); compare_bits(a, b, "query-changed", "session with queries against session without"); continue; }
        bool x, y; if (o.k == "solve") { b.sync(); x = y = b.wellposed() && states_sane(b); if (x) { a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); b.g->solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); ++b.nsolves; a.sync(); if (a.gkind == sut::SPARSE) kept = true; } }
        else { x = exec(a, o); y = exec(b, o); }
        if (x != y) fail("query-changed", "operation applies in one session only"); if (!x) continue;
        compare_bits(a, b, "query-changed", "session with queries against session without");
    }
    if (a.gkind == sut::SPARSE && a.nsolves) {
        M p[4] = {a.g->A(), a.g->W(), a.g->L(), a.g->b()}, q[4] = {b.g->A(), b.g->W(), b.g->L(), b.g->b()};
        for (int k = 0; k < 4; ++k) if (p[k].size() != q[k].size() || memcmp(p[k].data(), q[k].data(), 8 * p[k].size())) fail("query-changed", fmt("matrix %d differs between the session with queries and the one without", k));
    }
    if (kept && a.nsolves) {
        for (i64 f : a.ftags) { V x = a.g->fac_stored(f), y = b.g->fac_stored(f); if (x.size() != y.size() || memcmp(x.data(), y.data(), 8 * x.size())) fail("query-changed", fmt("stored residual of factor %lld is %s with queries, %s without", (long long)f, mstr(x).c_str(), mstr(y).c_str())); }
    }
    if (kept) {
        for (size_t k = 0; k < a.ftags.size(); ++k) { double x = a.g->get_fac_chi2(k), y = b.g->get_fac_chi2(k); if (memcmp(&x, &y, 8)) fail("query-changed", fmt("stored error of factor %zu is %.17g with queries, %.17g without", k, x, y)); }
        if (a.gkind == sut::SPARSE) { double x = a.g->chi2(false), y = b.g->chi2(false); if (memcmp(&x, &y, 8)) fail("query-changed", fmt("stored total error %.17g with queries, %.17g without", x, y)); cx.dg.d(x); V u = a.g->chi2_array(), v = b.g->chi2_array(); if (u.size() != v.size() || memcmp(u.data(), v.data(), 8 * u.size())) fail("query-changed", "the stored errors per factor differ between the session with queries and the one without"); }
        cx.st.add("stored_errors_compared");
    }
    for (int k = 0; k < 2; ++k) { double x = a.g->chi2(true), y = b.g->chi2(true); if (memcmp(&x, &y, 8)) fail("query-changed", fmt("total error %.17g with queries, %.17g without", x, y)); cx.dg.d(x); }
    for (size_t k = 0; k < a.ftags.size(); ++k) { double x = a.g->get_fac_chi2(k), y = b.g->get_fac_chi2(k); if (memcmp(&x, &y, 8)) fail("query-changed", fmt("factor %zu error %.17g with queries, %.17g without", k, x, y)); }
    a.digest_states();
}
static Reg r09({"C09", gen09, run09, 3000, 50000, 1000000000ULL, SD, "queries interleaved anywhere (between arrivals, solves, rejected steps), network faults"});
// ------------------------------------------------------------------ C18
static Trace gen18(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.robust = false; c.p_anchor = r.p(0.3) ? 0 : r.u(0, 0.8); c.noise = r.p(0.5) ? 0 : 1e-3; c.init = 0.03; bool far = r.p(0.25); if (far) c.init = r.p(0.5) ? 0.4 : 1.5; GenOpt g; g.p_solve = 0; g.tail = 0; g.gkind = sut::DENSE; Trace t = gen_session(r, c, g, st);
    int n = far ? 0 : r.i(1, 3); for (int k = 0; k < n; ++k) t.push_back(Op("sys"));
    t.push_back(Op("budget", {r.i(3), r.p(0.1) ? 0 : r.i(1, 12)})); t.push_back(Op("min", {r.i(3)})); return t;
}
static void run18(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); Session d(cx, sut::DENSE), s(cq, sut::SPARSE);
    for (auto &o : t) {
        if (o.k == "sys") {
            if (d.ntags.empty()) continue; d.sync(); s.sync();
            double e = d.g->chi2(true), f = s.g->chi2(true); if (!(std::fabs(e - f) <= 1e-9 * (1 + f))) fail("dense-error", fmt("dense solver reports error %.12g, sparse %.12g", e, f)); cx.dg.d(e);
            if (!d.wellposed(1e-6) || !states_sane(d)) { cx.st.add("illposed"); continue; }
            Graph start = s.mirror; V g; M h; bool sysok = d.g->dense_system(g, h); s.g->solve(0, 1, 1e-6, 1e-2); M L = s.g->L(); V b = s.g->b(); M Lf = L; bool lo = false, up = false; for (int i = 0; i < L.rows(); ++i) for (int j = 0; j < i; ++j) { lo = lo || L(i, j) != 0; up = up || L(j, i) != 0; }
            if (lo && !up) Lf = L.selfadjointView<Eigen::Lower>(); if (up && !lo) Lf = L.selfadjointView<Eigen::Upper>();
            if (sysok) {
            if (g.size() != b.size()) fail("dense-system", fmt("dense gradient has %d entries, sparse problem %d", (int)g.size(), (int)b.size()));
            double ls = Lf.cwiseAbs().maxCoeff(), bs = b.cwiseAbs().maxCoeff() + 1e-6 * ls;
            if (!((g - b).cwiseAbs().maxCoeff() <= 1e-8 * bs + 1e-8 * ls)) fail("dense-system", fmt("dense gradient %s, sparse %s", mstr(g.transpose()).c_str(), mstr(b.transpose()).c_str()));
            if (!((h - Lf).cwiseAbs().maxCoeff() <= 1e-9 * ls)) fail("dense-system", "dense Hessian differs from the sparse information matrix"); }
            d.g->solve(0, 1, 1e-6, 1e-2); s.sync(); d.sync(); if (!states_sane(s, 1e3)) return; compare_states(d, s, 1e-7, "dense-step", "after one Newton step, dense against sparse"); d.check_anchors("by the dense solver"); cx.st.add("systems_compared"); continue;
        }
        if (o.k == "budget") {
            d.sync(); if (d.ntags.empty() || !d.wellposed(1e-6) || !states_sane(d, 1e3)) continue; auto s0 = d.states(); double e0 = d.g->chi2(true); int it = d.g->solve((int)o.at(0), (unsigned)o.at(1), 1e-6, 0); cx.dg.u(it); double e1 = d.g->chi2(true);
            auto again = [&](int n) { for (size_t k = 0; k < s0.size(); ++k) if (!d.mirror.nodes[k].anchor) d.g->set_state(d.ntags[k], s0[k]); if (n) d.g->solve((int)o.at(0), n, 1e-6, 0); return d.g->chi2(true); };
            if (it > 0 && it < (int)o.at(1) && std::isfinite(e0) && std::isfinite(e1)) {
                double p1 = again(it - 1), p2 = again(it); cx.st.add("dense_early_stops"); if (!(std::fabs(p2 - e1) <= 1e-7 * (1 + e1))) fail("dense-budget", fmt("the solve ended after %d iterations at error %.12g, asking for %d iterations ends at %.12g", it, e1, it, p2));
                if (!(std::fabs(p1 - e1) <= 1e-3)) fail("dense-stopped-early", fmt("method %lld stopped after %d of %lld iterations although its last step changed the error from %.12g to %.12g", (long long)o.at(0), it, (long long)o.at(1), p1, e1));
            }
            if (o.at(0) == 0 && it > 1 && std::isfinite(e0)) { double p1 = it > 2 ? again(it - 2) : again(0), p2 = again(it - 1); if (std::fabs(p1 - p2) < 1e-6 && p1 < 1e6) fail("dense-stopped-late", fmt("iteration %d was done although the one before changed the error only from %.12g to %.12g", it, p1, p2)); again(it); }
            if (it > std::max(1, (int)o.at(1))) fail("dense-budget", fmt("%d iterations done, %lld allowed", it, (long long)o.at(1))); d.check_anchors("by the dense solver"); d.check_counts("dense"); continue; }
        if (o.k == "min") {
            d.sync(); s.sync(); if (d.ntags.empty() || !d.wellposed(1e-5) || !s.wellposed(1e-5) || !states_sane(d, 1e3)) continue; Graph rf = d.mirror, rs = s.mirror; if (!rf.solve(50, 1e-10) || !rs.solve(50, 1e-10) || std::fabs(rf.chi2() - rs.chi2()) > 1e-6 * (1 + rf.chi2())) { cx.st.add("no_reference_minimum"); continue; }
            bool far = false; for (size_t k = 0; k < rf.nodes.size(); ++k) if (state_diff(rf.nodes[k].kind, rf.nodes[k].x, d.mirror.nodes[k].x) > 0.5 || state_diff(rf.nodes[k].kind, rf.nodes[k].x, s.mirror.nodes[k].x) > 0.5) far = true; if (far) continue;
            // optimizer stops when the error changes little: repeat
            for (int k = 0; k < 12; ++k) { d.g->solve((int)o.at(0), 5, 1e-6, 0); s.g->solve(0, 1, 1e-6, 0); } d.sync(); s.sync(); double x = d.mirror.chi2(), y = s.mirror.chi2(); cx.st.add("minima_compared");
            if (!(std::fabs(x - y) <= 1e-5 * (1 + y))) fail("dense-minimum", fmt("dense solver ends at error %.12g, sparse at %.12g", x, y));
            double e = d.g->chi2(true); if (!(std::fabs(e - x) <= 1e-8 * (1 + x))) fail("dense-error", fmt("dense solver reports error %.12g, its states give %.12g", e, x)); d.check_anchors("by the dense solver"); d.check_valid("by the dense solver"); continue; }
        exec(d, o); exec(s, o);
    }
    d.digest_states();
}
static Reg r18({"C18", gen18, run18, 3200, 50000, 1500000000ULL, SD, "network faults while building, anchors anywhere, bounded iteration budgets"});
// ------------------------------------------------------------------ C19
static double wild(Rng &r, double x) {
    switch (r.i(9)) {
    case 0: { u64 b; memcpy(&b, &x, 8); b ^= 1ULL << r.i(64); memcpy(&x, &b, 8); break; }
    case 1: x = std::pow(10.0, r.u(-300, 300)) * (r.p(0.5) ? 1 : -1); break;
    case 2: x = 0; break;
    case 3: x = r.p(0.5) ? 1.7976931348623157e308 : 4.9e-324; break;
    case 4: x = M_PI * r.i(-3, 3); break;
    case 5: x = std::pow(10.0, r.u(3, 18)) * (r.p(0.5) ? 1 : -1); break;
    case 6: x = x * (1 + 1e-15); break;
    case 7: x = M_PI * r.i(-3, 3) + std::pow(10.0, r.u(-16, -3)); break;
    default: x = -x;
    }
    return std::isfinite(x) ? x : 1.0;
}
// point clouds and plane registrations fed with the same kind of values
static Trace gen19r(Rng &r, int size, Stats &st) {
    Trace t; t.push_back(Op("cfg", {0, 2})); double p = r.p(0.4) ? 0 : std::pow(10.0, r.u(-3, -0.7));
    if (r.p(0.5)) for (int k = r.i(1, 12); k > 0; --k) {
        Op o("cl", {r.i(3), (i64)std::max(3.0, std::pow(10.0, r.u(0.3, 1.2 + 0.3 * size))), r.i(1 << 30), r.i(8)}, {r.p(0.3) ? 0 : std::pow(10.0, r.u(-14, 2)), p}); if (r.p(0.5)) o.i[1] = r.i(3, 6);
        for (int j = 0; j < 6; ++j) o.d.push_back(r.p(0.4) ? 0 : r.n() * (r.p(0.1) ? 10 : 1)); st.add("clouds"); t.push_back(o);
    } else {
        planes::PCfg c = planes::random_cfg(r, size); c.poses = std::min(c.poses, 40); planes::PW w = planes::make_world(r, c); t.push_back(Op("psize", {c.poses, c.nplanes})); for (int k = 0; k < c.nplanes; ++k) t.push_back(Op("addp", {k, 0}));
        auto v = planes::points(r, w, r.i(3), st); int n = 0;
        for (auto &o : v) { for (auto &x : o.d) if (r.p(p)) { x = wild(r, x); st.add("values_corrupted"); } t.push_back(o); if (n++ < 3 && r.p(0.05)) t.push_back(Op("psolve", {r.i(8), r.p(0.2)})); }
        for (int k = r.i(1, 4); k > 0; --k) { if (r.p(0.4)) { V6 x; for (int j = 0; j < 6; ++j) x(j) = r.p(p) ? wild(r, 1) : r.n() * (r.p(0.1) ? 10 : 1); t.push_back(planes::setlast_op(x)); } if (r.p(0.2)) t.push_back(Op("preset")); t.push_back(Op("psolve", {r.i(8), r.p(0.2)})); if (r.p(0.3)) t.push_back(Op("peval")); }
    }
    return t;
}
static void run19r(const Trace &t, Ctx &cx) {
    planes::PSess s(cx);
    for (auto &o : t) {
        u64 s0 = rt::steps; double work = 0;
        if (o.k == "cl") {
            i64 n = std::max<i64>(3, std::min<i64>(2000, o.at(1))); Rng r((u64)o.at(2)); int style = (int)(o.at(3) & 7); double p = o.fd(1), sc = style == 6 ? std::pow(10.0, r.u(-150, 150)) : r.p(0.3) ? std::pow(10.0, r.u(-2, 2)) : 1; auto bad = [&](double x) { return r.p(p) ? wild(r, x) : x; };
            mrob::MatX X(n, 3), Y(n, 3), C(3 * n, 3); mrob::MatX1 w(n); V6 xi; for (int j = 0; j < 6; ++j) xi(j) = r.n(); M4 G = ref::expT(xi); double noise = r.p(0.3) ? 0 : std::pow(10.0, r.u(-6, 1));
            for (i64 k = 0; k < n; ++k) {
                V3 x(r.n(), r.n(), r.n()), y; if (style == 7) x = V3(1, 2, 3) * r.n(); if (style == 5) x(2) = 0; V3 e(r.n(), r.n(), r.n());
                y = G.topLeftCorner<3, 3>() * x + G.topRightCorner<3, 1>(); if (style == 1) y(0) = -y(0); if (style == 2) y = -5 * x; if (style == 3) y = V3(r.n(), r.n(), r.n()) * 4; if (style == 4) y = V3(-5 * x(0), 5 * x(1), -5 * x(2)) + V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));
                y += noise * e; x *= sc; if (!r.p(0.1)) y *= sc; for (int j = 0; j < 3; ++j) { X(k, j) = bad(x(j)); Y(k, j) = bad(y(j)); } w(k) = bad(r.p(0.1) ? 0 : r.u(0.5, 2)); M3 q; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) q(a, b) = r.n(); M3 c = q * q.transpose() + 0.05 * M3::Identity(); for (int a = 0; a < 9; ++a) C(3 * k + a / 3, a % 3) = bad(c(a / 3, a % 3));
            }
            mrob::Mat61 x0; for (int j = 0; j < 6; ++j) x0(j) = o.fd(2 + j); int q; { rt::Sut z; mrob::SE3 T(x0); q = o.at(0) == 0 ? mrob::PCRegistration::arun(X, Y, T) : o.at(0) == 1 ? mrob::PCRegistration::gicp(X, Y, C, C, T, o.fd(0)) : mrob::PCRegistration::weighted_point(X, Y, w, T, o.fd(0)); }
            if (q < 0 || q > 20) fail("work-budget", fmt("cloud alignment %lld reports %d iterations", (long long)o.at(0), q)); cx.st.add(q ? "alignments" : "alignments_refused"); cx.dg.u(q); work = 20000.0 + 20.0 * n * 1500;
        } else if (o.k == "psolve") { double pts = 0; for (auto &x : s.pl) pts += x.second.pts.size(); if (!s.nplanes()) continue; if (!s.exec(o)) continue; i64 md = o.at(0); work = md < 2 || md == 5 ? 200000 + 20000.0 * (pts + s.T) : md > 3 ? 200000.0 + 101 * (pts + s.T) * 15000 : md == 2 && o.at(1) ? 200000 + 20000.0 * (pts + s.T) : 200000.0 + 10000 * (pts + s.T) * 600; if (md > 1 && md != 5) { double it = s.evaluate()[3], lim = md > 3 ? 100 : md == 2 && o.at(1) ? 1 : 10000; if (!(it <= lim)) fail("work-budget", fmt("solve reports %.17g iterations, budget %g", it, lim)); } }
        else if (o.k != "cfg") { if (!s.exec(o)) continue; work = 400000 + 4000.0 * (s.T + 1) * (s.nplanes() + 1) + 200.0 * s.count() + 20.0 * o.d.size() * 200; }
        else continue;
        u64 used = rt::steps - s0; static bool show = getenv("SIM_BUDGET"); if (show) fprintf(stderr, "ratio %.5f %s %lld\n", used / work, o.k.c_str(), (long long)o.at(0));
        work *= 2.5; if (used > work) fail("work-budget", fmt("%s took %llu basic blocks, budget %.0f", o.k.c_str(), (unsigned long long)used, work));
    }
    for (auto &x : s.traj()) for (int k = 0; k < 16; ++k) cx.dg.d(x.data()[k]);
}
static Trace gen19(Rng &r, int size, Stats &st) {
    if (r.p(0.3)) return gen19r(r, size, st);
    Cfg c = world::random_cfg(r, size); c.robust = r.p(0.4); c.ransac = r.p(0.3); c.probes = true; c.wspread = 4; GenOpt g; g.p_solve = 0.05; g.p_query = 0.05; g.p_upd = 0.1; g.max_iters = 25; g.tail = 3; Trace t = gen_session(r, c, g, st);
    double p = r.p(0.3) ? 0 : std::pow(10.0, r.u(-3, -0.5)); t[0].i.push_back(1);
    for (auto &o : t) if (o.k != "cfg" && o.k != "solve") for (auto &x : o.d) if (r.p(p)) { x = wild(r, x); st.add("values_corrupted"); }
    for (auto &o : t) if (o.k == "solve" && r.p(0.3)) { o.d[0] = r.p(0.5) ? 0 : std::pow(10.0, r.u(-20, 20)); o.d[1] = r.p(0.5) ? 0 : std::pow(10.0, r.u(-20, 20)); if (r.p(0.3) && o.at(0)) o.i[1] = r.i(0, 60); }
    return t;
}
static void run19(const Trace &t, Ctx &cx) {
    for (auto &o : t) if (o.k == "cfg" && o.at(1) == 2) return run19r(t, cx);
    Session a(cx, cfg_kind(t)); i64 nf = 0, dim = 0;
    for (auto &o : t) {
        u64 s0 = rt::steps; i64 j0 = sut::probe.jac, work = 1; (void)s0;
        if (o.k == "node" || o.k == "fac") { if (!a.can(o)) continue; if (o.k == "node") a.g->add_node(o); else { a.g->add_fac(o); ++nf; } a.mirror_add(o); if (o.k == "node") { dim += ndim((int)o.at(1)); if (o.at(2)) a.anchor0[o.at(0)] = a.g->node_state(o.at(0)); } }
        else if (o.k == "solve") {
            if (!nf || !a.mirror.state_dim()) continue; work = std::max<i64>(1, o.at(1)); ++cx.solves; ++a.nsolves;
            a.g->solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); cx.st.add("solves");
            i64 evals = sut::probe.jac - j0, lim = nf * (o.at(0) || a.gkind == sut::DENSE ? work : 1); if (evals > lim) fail("extra-linearisation", fmt("%lld Jacobian evaluations for %lld factors and %lld iterations", (long long)evals, (long long)nf, (long long)work));
            i64 rl = nf * (2 * work + 2), re = sut::probe.res; (void)rl; (void)re;
        } else if (o.k == "upd") { i64 tg = o.at(0); if (!a.mirror.idx.count(tg) || a.mirror.n(tg).anchor) continue; a.g->node_update(tg, vec_of(o.d, ndim(a.mirror.n(tg).kind)), o.at(1)); }
        else if (o.k == "q") { Digest d; run_query(a, o.at(0) & ~(512 | 256), d); }
        else if (o.k == "dup") exec(a, o);
        u64 used = rt::steps - s0, budget = 2000000ULL + (u64)work * (u64)(20000 * (nf + 1) + 40 * dim * dim * dim + 4000 * dim * (nf + 1));
        if (used > budget) fail("work-budget", fmt("%s took %llu basic blocks, budget %llu (dim %lld, %lld factors, %lld iterations)", o.k.c_str(), (unsigned long long)used, (unsigned long long)budget, (long long)dim, (long long)nf, (long long)work));
        a.check_counts(o.k.c_str()); if (o.k == "solve") a.check_anchors("in a solve");
    }
    Digest d; for (auto &s : a.g->states()) for (int k = 0; k < s.size(); ++k) cx.dg.d(s.data()[k]);
}
static Reg r19({"C19", gen19, run19, 5500, 100000, 500000000ULL, SD, "bit flips and extreme finite values in measurements, states, information matrices and parameters; corrupted increments; user-derived (counting) factors"});
// ------------------------------------------------------------------ C20
static Trace gen20(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.p_anchor = 0.4; GenOpt g; g.p_solve = 0.1; g.p_query = 0.1; g.p_set = 0.04; Trace t = gen_session(r, c, g, st), o; std::vector<i64> tags; if (r.p(0.3)) add_eigs(r, t, st);
    for (auto &x : t) { o.push_back(x); if (x.k == "node" || x.k == "fac" || x.k == "eig") tags.push_back(x.at(0)); while (!tags.empty() && r.p(0.35)) o.push_back(Op("dup", {tags[r.i((int)tags.size())]})); if (r.p(0.2)) o.push_back(Op("bad", {r.p(0.4) ? -1 : r.p(0.5) ? r.i(0, 3) : (i64)(r.next() >> r.i(1, 60))})); if (r.p(0.1)) o.push_back(Op("names")); }
    o.push_back(Op("names")); return o;
}
static void run20(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); Session a(cx, cfg_kind(t)), b(cq, cfg_kind(t));
    for (auto &o : t) {
        if (o.k == "dup") {
            std::vector<i64> deg; for (i64 n : a.ntags) deg.push_back(a.g->node_degree(n)); exec(a, o); a.check_counts("after re-adding");
            for (size_t k = 0; k < deg.size(); ++k) if (deg[k] != a.g->node_degree(a.ntags[k])) fail("dup-changed", fmt("re-adding changed the number of factors of node %zu from %lld to %lld", k, (long long)deg[k], (long long)a.g->node_degree(a.ntags[k]))); continue; }
        if (o.k == "bad") {
            for (int w = 0; w < 2; ++w) { i64 n = w ? (i64)a.ftags.size() : (i64)a.ntags.size(), id = o.at(0) < 0 ? o.at(0) : n + o.at(0); if (id >= 0 && id < n) continue; bool threw = false;
                try { if (w) a.g->get_fac_chi2(id); else a.g->get_node_state(id); } catch (std::exception &) { threw = true; }
                if (!threw) fail("unknown-id", fmt("looking up %s id %lld of %lld raised no error", w ? "factor" : "node", (long long)id, (long long)n)); cx.st.add("bad_ids"); } continue; }
        if (o.k == "names") {
            for (size_t k = 0; k < a.ntags.size(); ++k) { if (a.g->node_id(a.ntags[k]) != (i64)k) fail("id-name", fmt("node %zu carries id %lld", k, (long long)a.g->node_id(a.ntags[k]))); M x = a.g->get_node_state(k), y = a.g->node_state(a.ntags[k]); if (x.size() != y.size() || memcmp(x.data(), y.data(), 8 * x.size())) fail("id-name", fmt("node id %zu names another object", k)); }
            for (size_t k = 0; k < a.etags.size(); ++k) if (a.g->eig_id(a.etags[k]) != (i64)k) fail("id-name", fmt("eigen factor %zu carries id %lld", k, (long long)a.g->eig_id(a.etags[k])));
            a.g->chi2(true); for (size_t k = 0; k < a.ftags.size(); ++k) { if (a.g->fac_id(a.ftags[k]) != (i64)k) fail("id-name", fmt("factor %zu carries id %lld", k, (long long)a.g->fac_id(a.ftags[k]))); double x = a.g->get_fac_chi2(k); V r = a.g->fac_residual(a.ftags[k]); M W = a.mirror.facs[k].W; double y = 0.5 * r.dot(W * r); if (std::isfinite(y) && !(std::fabs(x - y) <= 1e-6 * (1 + y))) fail("id-name", fmt("factor id %zu names another object: error %.9g against %.9g", k, x, y)); }
            continue; }
        bool x = exec(a, o), y = exec(b, o); if (x != y) fail("dup-changed", "operation applies only in the session without re-sent data");
        if (o.k == "solve" || o.k == "upd") compare_bits(a, b, "dup-changed", "session with re-sent data against session without");
    }
    if (a.ntags.size()) { double x = a.g->chi2(true), y = b.g->chi2(true); if (memcmp(&x, &y, 8)) fail("dup-changed", fmt("total error %.17g with re-sent data, %.17g without", x, y)); cx.dg.d(x); }
    compare_bits(a, b, "dup-changed", "session with re-sent data against session without"); a.digest_states();
}
static Reg r20({"C20", gen20, run20, 3200, 60000, 1000000000ULL, SD, "duplicated deliveries at any point, unknown and negative ids, network faults"});
// ------------------------------------------------------------------ C21
static Trace gen21(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.robust = r.p(0.3); GenOpt g; g.p_solve = 0.15; g.p_query = 0.05; g.p_upd = 0.05; g.p_set = 0.04; g.tail = 3; Trace t = gen_session(r, c, g, st), o; int gk = cfg_kind(t);
    double p = r.u(0.02, 0.2); for (auto &x : t) { o.push_back(x); if (r.p(p)) { o.push_back(Op("crash", {r.i(3)})); st.add("crash"); } if (x.k == "solve" && r.p(0.3)) o.push_back(Op("crash", {r.i(3)})); }
    if (r.p(0.5)) {       // a solve that ends with much damping (many rejected steps at the optimum), a disturbance, then a short one
        std::vector<ref::Node> all; for (auto &x : o) if (x.k == "node") all.push_back(to_node(x));
        std::vector<i64> e; for (auto &n : all) if (!n.anchor && (n.kind == P2 || n.kind == L2 || n.kind == L3)) e.push_back(n.tag);
        if (!e.empty() && r.p(0.5)) { o.push_back(Op("poison", {e[r.i((int)e.size())], r.i(5, 40)})); st.add("poisoned_solves"); } else o.push_back(Op("solve", {1, r.i(10, 30)}, {1e-2, 1e-30}));
        if (r.p(0.7)) o.push_back(Op("crash", {r.i(3)}));
        for (auto &n : all) if (!n.anchor && r.p(0.5)) { V dx(ndim(n.kind)); for (int k = 0; k < dx.size(); ++k) dx(k) = 0.1 * r.n(); Op q("sst", {n.tag}); q.d = world::flat(ref::retract(n.kind, n.x, dx)); o.push_back(q); }
        o.push_back(Op("solve", {1, r.i(1, 3)}, {1e-2, 1e-8})); }
    o.push_back(solve_op(r, gk, true, 5)); return o;
}
static void run21(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); int gk = cfg_kind(t); std::unique_ptr<Session> live(new Session(cx, gk)); Session keep(cq, gk); i64 ncrash = 0;
    for (auto &o : t) {
        if (o.k == "crash") {
            // durable: the log of measurements and the reported estimates
            live->sync(); auto st = by_tag(*live); i64 n = live->g->n_nodes(), f = live->g->n_facs(), ds = live->g->dim_state(), db = live->g->dim_obs(); Session *old = live.release(); double c0 = old->ntags.empty() ? 0 : old->g->chi2(true);
            std::unique_ptr<Session> nw(new Session(cx, gk));
            auto order = old->ntags; auto fo = old->ftags; auto fops = old->fop; auto anc = old->anchor0; if (o.at(0) == 0) delete old, old = nullptr;      // process gone before the rebuild, or (1,2) leftovers still alive
            if (o.at(0) == 1) { for (i64 k : order) { nw->add(fops[k]); nw->g->set_state(k, st[k]); } for (i64 k : fo) nw->add(fops[k]); }
            else { std::set<i64> have; for (i64 k : order) { nw->add(fops[k]); nw->g->set_state(k, st[k]); have.insert(k); } for (i64 k : fo) nw->add(fops[k]); }
            nw->anchor0 = anc; nw->sync(); delete old; ++ncrash; cx.st.add("crashes");
            if (nw->g->n_nodes() != n || nw->g->n_facs() != f || nw->g->dim_state() != ds || nw->g->dim_obs() != db) fail("rebuild-counts", fmt("rebuilt graph has %lld nodes %lld factors dimensions %lld %lld, the crashed one %lld %lld %lld %lld", (long long)nw->g->n_nodes(), (long long)nw->g->n_facs(), (long long)nw->g->dim_state(), (long long)nw->g->dim_obs(), (long long)n, (long long)f, (long long)ds, (long long)db));
            auto s2 = by_tag(*nw); for (auto &p : st) { M &q = s2[p.first]; if (q.size() != p.second.size() || memcmp(q.data(), p.second.data(), 8 * q.size())) fail("rebuild-states", fmt("state set to %s reads back as %s", mstr(p.second).c_str(), mstr(q).c_str())); }
            if (n) { double c = nw->g->chi2(true); if (std::isfinite(c0) && !(std::fabs(c - c0) <= 1e-10 * (1 + c0))) fail("rebuild-error", fmt("rebuilt graph reports error %.14g, the crashed one %.14g", c, c0)); }
            live = std::move(nw); continue; }
        if (o.k == "solve") { keep.sync(); live->sync(); if (!keep.wellposed(1e-6) || !states_sane(keep, 1e3)) continue; live->solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); keep.g->solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); ++keep.nsolves; live->sync(); keep.sync();
            if (!states_sane(keep, 1e3)) return; compare_states(*live, keep, 1e-8, "rebuild-diverges", "rebuilt mapper against the one that did not crash"); continue; }
        if (o.k == "poison") {      // an absurd estimate, a solve that can make nothing of it, and the good estimates put back
            if (!keep.mirror.idx.count(o.at(0)) || !keep.wellposed(1e-6)) continue;
            for (Session *s : {live.get(), &keep}) { s->sync(); auto st = by_tag(*s); M x = st[o.at(0)]; if (x.cols() != 1) continue; x(0) += 1e200; s->g->set_state(o.at(0), x); s->g->solve(1, (unsigned)o.at(1), 1e-2, 1e-8); ++s->nsolves; for (auto &q : st) s->g->set_state(q.first, q.second); s->sync(); }
            cx.st.add("poisoned"); continue; }
        exec(*live, o); exec(keep, o);
    }
    if (!keep.ntags.empty()) { live->sync(); compare_states(*live, keep, 1e-8, "rebuild-diverges", "rebuilt mapper against the one that did not crash"); live->check_anchors("over crashes"); } live->digest_states();
}
static Reg r21({"C21", gen21, run21, 3000, 50000, 1000000000ULL, SD, "crash and rebuild from the durable log and reported estimates at any operation boundary; network faults"});
// ------------------------------------------------------------------ C22
static Trace gen22(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.robust = r.p(0.4); c.ransac = r.p(0.2); c.init = r.p(0.3) ? 0.5 : 0.05; GenOpt g; g.p_solve = 0.12; g.p_query = 0.12; g.p_upd = 0.05; g.p_set = 0.04; Trace t = gen_session(r, c, g, st); t[0].i.push_back(r.i(256)); t[0].i.push_back(r.i(256)); t[0].i.push_back(r.i(256)); t[0].i.push_back(r.i(0, 40)); return t;
}
static void other_activity(i64 n, Ctx &cx, std::vector<std::unique_ptr<Session>> &keep) {
    Rng r(77 + n); Stats st;
    for (i64 k = 0; k < n % 4; ++k) { Cfg c = world::random_cfg(r, 0); GenOpt g; g.p_solve = 0.1; g.net = false; Trace t = gen_session(r, c, g, st); std::unique_ptr<Session> s(new Session(cx, cfg_kind(t))); for (auto &o : t) exec(*s, o); if (k % 2) keep.push_back(std::move(s)); }
}
static void run22(const Trace &t, Ctx &cx) {
    Digest d[2]; std::string why[2]; Stats quiet; Op cfg("cfg"); for (auto &o : t) if (o.k == "cfg") cfg = o; std::vector<std::vector<double>> log[2];
    for (int pass = 0; pass < 2; ++pass) {
        Ctx cq(quiet); std::vector<std::unique_ptr<Session>> others; rt::alloc_reset(pass ? (uint8_t)cfg.at(1) : 0xA5, pass ? (uint8_t)cfg.at(2) : 0xDD); std::vector<std::string> junk; if (pass) { other_activity(cfg.at(4), cq, others); for (i64 k = 0; k < cfg.at(4) * 7; ++k) junk.push_back(std::string(17 + k * 13 % 400, 'x')); }
        Session a(pass ? cq : cx, cfg_kind(t));
        for (auto &o : t) {
            std::vector<double> l; if (o.k == "q") { Digest q; run_query(a, o.at(0) & ~(i64)4, q); double v; memcpy(&v, &q.h, 8); l.push_back(v); }
            else if (o.k == "solve") { a.sync(); bool fin = states_sane(a, 1e6); if (fin && a.mirror.state_dim() && !a.mirror.facs.empty()) { if (!pass && !a.wellposed()) cx.st.add("singular_solves"); a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); a.sync(); } }
            else l.push_back(exec(a, o));
            for (auto &s : a.states()) for (int k = 0; k < s.size(); ++k) l.push_back(s.data()[k]); if (o.k == "solve" || o.k == "q") l.push_back(a.g->chi2(true)); log[pass].push_back(l);
            if (pass && junk.size() > 3) junk.erase(junk.begin() + junk.size() / 2);
        }
        if (!pass) a.digest_states();
    }
    for (size_t k = 0; k < log[0].size(); ++k) if (log[0][k].size() != log[1][k].size() || memcmp(log[0][k].data(), log[1][k].data(), 8 * log[0][k].size())) {
        size_t i = 0; while (i < log[0][k].size() && !memcmp(&log[0][k][i], &log[1][k][i], 8)) ++i; fail("not-repeatable", fmt("operation %zu (%s) gives another result when the session is repeated: value %zu is %.17g and then %.17g", k, k + 1 < t.size() ? t[k].k.c_str() : "", i, i < log[0][k].size() ? log[0][k][i] : 0, i < log[1][k].size() ? log[1][k][i] : 0)); }
    rt::alloc_reset(0xA5, 0xDD);
}
static Reg r22({"C22", gen22, run22, 2600, 50000, 1500000000ULL, SD, "other contents of fresh and freed memory, other heap layout, other graphs alive in the process, network faults"});
// ------------------------------------------------------------------ C23
static Trace gen23(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.noise = r.p(0.5) ? 0 : 1e-2; c.init = r.p(0.5) ? 0.5 : 3; c.p_anchor = 0; c.loops = 0; c.planes = false; c.pt2pl = r.p(0.3); c.user = false; c.p_rev = 0.3;
    auto w = world::make(r, c); Trace t; t.push_back(Op("cfg", {r.p(0.25) ? sut::DENSE : sut::SPARSE})); auto v = r.p(0.5) ? world::arrival_order(r, w, st) : world::deliver(r, w, world::random_net(r), st);
    if (r.p(0.5)) { Trace x = permute(v, r.next() >> 1); v = x; }
    std::set<i64> inited; double p = r.u(0.4, 1);
    for (auto &o : v) { if (o.k == "dup") { t.push_back(o); continue; } if (o.k == "fac" && (o.at(1) == F2P2 || o.at(1) == FODO || o.at(1) == F2P3 || o.at(1) == F1P1L2 || o.at(1) == F1P1L3) && r.p(p)) o.i[5] |= sut::F_INIT; t.push_back(o); }
    if (r.p(0.5)) t.push_back(Op("reckon")); return t;
}
static void run23(const Trace &t, Ctx &cx) {
    Session a(cx, cfg_kind(t));
    for (auto &o : t) {
        if (o.k == "reckon") {   // dead reckoning along a chain of initialised measurements, walked by the model
            continue; }
        if (o.k == "fac" && (o.at(5) & sut::F_INIT) && a.can(o)) {
            a.sync(); auto before = by_tag(a); a.add(o); a.sync(); auto after = by_tag(a); i64 tgt = o.at(4); const Fac &f = a.mirror.facs.back(); cx.st.add("initialised");
            if (!states_sane(a, 1e4)) return;
            for (auto &p : before) if (p.first != tgt && memcmp(p.second.data(), after[p.first].data(), 8 * p.second.size())) fail("init-changed-other", fmt("initialising from a measurement of kind %lld changed a node that is not its target", (long long)o.at(1)));
            V r = a.mirror.res(f); double e = r.cwiseAbs().maxCoeff(), sc = scale_of(a);
            if (!(e <= 1e-7 * sc)) fail("init-inexact", fmt("measurement of kind %lld leaves a residual %s after initialising its target", (long long)o.at(1), mstr(r.transpose()).c_str()));
            double c = (a.g->chi2(true), a.g->get_fac_chi2((i64)a.ftags.size() - 1)); double wm = f.W.cwiseAbs().maxCoeff(); if (!(c <= 1e-12 * wm * sc * sc)) fail("init-inexact", fmt("measurement of kind %lld reports error %.6g after initialising its target", (long long)o.at(1), c));
            a.check_valid("after initialisation", 1e-7); continue; }
        exec(a, o);
    }
    a.digest_states();
}
static Reg r23({"C23", gen23, run23, 60000, 600000, 500000000ULL, "FGraph, FGraphSolve(Dense), all pose and landmark factors with initialisation, SE3/SO3 (real code)", "arrival in any order with any ids (reversed edges), poor starting states, network faults"});
