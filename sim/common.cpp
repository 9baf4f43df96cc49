#include "common.hpp"
using namespace ref;
Op solve_op(Rng &r, int gk, bool lm, int mi) {
    static const double lam[] = {1e-6, 1e-4, 1e-2, 1}, tol[] = {1e-2, 1e-4, 1e-8};
    int m = !lm ? 0 : gk == sut::DENSE ? r.i(3) : r.i(2);
    return Op("solve", {m, m ? r.i(1, mi) : gk == sut::DENSE ? r.i(1, 3) : 1}, {lam[r.i(4)], tol[r.i(3)]});
}
Op query_op(Rng &r) { return Op("q", {(i64)(r.next() & 0xfff)}); }
// eigen factors (their own list and ids) towards the end of a history
void add_eigs(Rng &r, Trace &t, Stats &st) {
    std::vector<i64> have; Trace o; size_t from = (size_t)(t.size() * r.u(0.6, 1)); i64 tag = 2000000; std::vector<i64> eig;
    for (size_t k = 0; k <= t.size(); ++k) {
        if (k >= from && !have.empty()) while (r.p(k == t.size() ? 0.7 : 0.3)) { Op e("eig", {tag, r.i(1, 4), 0}); std::set<i64> n; int m = r.i(1, 5); for (int j = 0; j < m; ++j) n.insert(have[r.i((int)have.size())]); for (i64 x : n) e.i.push_back(x); o.push_back(e); eig.push_back(tag++); st.add("eigen_factor_ops"); if (r.p(0.4)) o.push_back(Op("dup", {eig[r.i((int)eig.size())]})); }
        if (k == t.size()) break; o.push_back(t[k]); if (t[k].k == "node") have.push_back(t[k].at(0)); }
    t = o;
}
Trace gen_session(Rng &r, const world::Cfg &c, const GenOpt &g, Stats &st) {
    auto w = world::make(r, c); Trace t; int gk = g.gkind >= 0 ? g.gkind : (r.p(0.25) ? sut::DENSE : sut::SPARSE);
    t.push_back(Op("cfg", {gk}));
    auto v = g.net ? world::deliver(r, w, world::random_net(r), st) : world::arrival_order(r, w, st);
    std::vector<std::pair<i64, i64>> upd; std::vector<ref::Node> all;
    double big = 0; for (auto &o : v) big += o.k == "node" || o.k == "fac"; double few = big > 150 ? 150 / big * 150 / big : 1;      // fewer solves and questions in a large session
    for (auto &o : v) {
        if (o.k == "dup" && !g.dup) continue;
        t.push_back(o);
        if (o.k == "node" && !o.at(2)) upd.push_back({o.at(0), o.at(1)});
        if (o.k == "node" && g.p_set > 0) all.push_back(to_node(o));
        if (!all.empty() && r.p(g.p_set)) { auto &u = all[r.i((int)all.size())]; V dx(ndim(u.kind)); double a = r.p(0.2) ? 0.3 : 0.02; for (int k = 0; k < dx.size(); ++k) dx(k) = a * r.n(); Op q("sst", {u.tag}); q.d = world::flat(ref::retract(u.kind, u.x, dx)); t.push_back(q); st.add("states_overwritten"); }
        if (!all.empty() && r.p(g.p_set * 0.5)) {     // a landmark exactly where a pose is: no direction to it
            std::vector<ref::Node *> p, l; for (auto &n : all) { if (n.kind == P2) p.push_back(&n); if (n.kind == L2) l.push_back(&n); }
            if (!p.empty() && !l.empty()) { auto &a = *p[r.i((int)p.size())], &b = *l[r.i((int)l.size())]; Op x("sst", {a.tag}), y("sst", {b.tag}); x.d = world::flat(a.x); y.d = {x.d[0], x.d[1]}; t.push_back(x); t.push_back(y); st.add("landmark_at_pose"); }
        }
        if (r.p(g.p_query * few)) t.push_back(query_op(r));
        if (r.p(g.p_solve * few)) t.push_back(solve_op(r, gk, g.lm, g.max_iters));
        if (!upd.empty() && r.p(g.p_upd)) { auto u = upd[r.i((int)upd.size())]; Op q("upd", {u.first, r.i(2)}); for (int k = 0; k < ndim((int)u.second); ++k) q.d.push_back(0.02 * r.n()); t.push_back(q); }
    }
    for (int k = 0; k < g.tail; ++k) { t.push_back(solve_op(r, gk, g.lm, g.max_iters)); if (r.p(g.p_query)) t.push_back(query_op(r)); }
    return t;
}
static void dm(Digest &d, const M &m) { d.u(m.rows() * 1000 + m.cols()); for (int k = 0; k < m.size(); ++k) d.d(m.data()[k]); }
void run_query(Session &s, i64 m, Digest &d) {
    if (m & 1) for (auto &x : s.g->states()) dm(d, x);
    if (m & 2) d.d(s.g->chi2(true));
    if (m & 4) d.d(s.g->chi2(false));
    bool sp = s.gkind == sut::SPARSE;
    if (m & 8 && sp && s.nsolves) { dm(d, s.g->A()); dm(d, s.g->W()); }
    if (m & 16 && sp && s.nsolves) { dm(d, s.g->L()); dm(d, s.g->b()); }
    if (m & 32 && sp && s.nsolves) dm(d, s.g->chi2_array());
    if (m & 64) for (size_t k = 0; k < s.ftags.size(); ++k) d.d(s.g->get_fac_chi2(k));
    if (m & 128) { for (i64 t : s.ntags) d.u(s.g->node_degree(t)); d.u(s.g->n_nodes()); d.u(s.g->n_facs()); d.u(s.g->dim_state()); d.u(s.g->dim_obs()); }
    if (m & 256) s.g->print(false);
    if (m & 512) s.g->print(true);
    if (m & 1024) for (i64 t : s.ftags) dm(d, s.g->fac_residual(t));
    if (m & 2048) for (size_t k = 0; k < s.ntags.size(); ++k) dm(d, s.g->get_node_state(k));
}
bool exec(Session &s, const Op &o) {
    if (o.k == "node" || o.k == "fac" || o.k == "eig") return s.add(o);
    if (o.k == "dup") {
        i64 t = o.at(0); auto it = s.fop.find(t); if (it == s.fop.end()) return false;
        if (it->second.k == "node") { i64 want = s.mirror.idx.at(t), got = s.g->readd_node(t); if (got != want) fail("dup-id", fmt("re-adding node %lld returned %lld", (long long)want, (long long)got)); }
        else if (it->second.k == "eig") { i64 want = std::find(s.etags.begin(), s.etags.end(), t) - s.etags.begin(), got = s.g->readd_eig(t); if (got != want) fail("dup-id", fmt("re-adding eigen factor %lld returned %lld", (long long)want, (long long)got)); }
        else { i64 want = std::find(s.ftags.begin(), s.ftags.end(), t) - s.ftags.begin(), got = s.g->readd_fac(t); if (got != want) fail("dup-id", fmt("re-adding factor %lld returned %lld", (long long)want, (long long)got)); }
        s.cx.st.add("dup_applied"); return true;
    }
    if (o.k == "solve") {
        s.sync(); if (!s.wellposed() || !states_sane(s)) { s.cx.st.add("solve_skipped_illposed"); return false; }
        s.solve((int)o.at(0), (unsigned)o.at(1, 1), o.fd(0, 1e-6), o.fd(1, 1e-2)); s.sync(); return true;
    }
    if (o.k == "q") { Digest d; run_query(s, o.at(0), d); s.cx.st.add("queries"); return true; }
    if (o.k == "sst") {
        i64 t = o.at(0); if (!s.mirror.idx.count(t)) return false; ref::Node &n = s.mirror.n(t); int m = n.kind == P3 ? 16 : ndim(n.kind); if ((int)o.d.size() < m) return false;
        M x(n.kind == P3 ? 4 : m, n.kind == P3 ? 4 : 1); for (int a = 0; a < x.rows(); ++a) for (int b = 0; b < x.cols(); ++b) x(a, b) = o.d[a * x.cols() + b];
        s.g->set_state(t, x); n.x = s.g->node_state(t); if (n.anchor) s.anchor0[t] = n.x; return true;
    }
    if (o.k == "upd") {
        i64 t = o.at(0); if (!s.mirror.idx.count(t)) return false; const Node &n = s.mirror.n(t); if (n.anchor || (int)o.d.size() < ndim(n.kind)) return false;
        V dx(ndim(n.kind)); for (int k = 0; k < dx.size(); ++k) dx(k) = o.d[k]; s.g->node_update(t, dx, o.at(1)); s.mirror.n(t).x = s.g->node_state(t); return true;
    }
    return false;
}
bool states_sane(const Session &s, double lim) { for (auto &n : s.mirror.nodes) for (int k = 0; k < n.x.size(); ++k) if (!(std::fabs(n.x.data()[k]) < lim)) return false; return true; }
Trace permute(const Trace &ops, u64 seed) {
    Rng r(seed); std::vector<const Op *> v; for (auto &o : ops) if (o.k == "node" || o.k == "fac") v.push_back(&o);
    std::set<i64> present; for (auto o : v) present.insert(o->at(0));
    std::map<i64, std::vector<i64>> dep;
    for (auto o : v) if (o->k == "fac") {
        for (int k = 0; k < fnodes((int)o->at(1)); ++k) dep[o->at(0)].push_back(ftag(*o, k));
        if (o->at(1) == FODO) dep[o->at(4)].push_back(o->at(3));
    }
    int style = r.i(3); std::vector<std::pair<double, const Op *>> pr;
    for (size_t k = 0; k < v.size(); ++k) { double x = style == 0 ? r.u() : style == 1 ? -(double)k + r.u(0, 4) : (v[k]->k == "node" ? 0 : 1) + r.u(); pr.push_back({x, v[k]}); }
    std::stable_sort(pr.begin(), pr.end(), [](auto &a, auto &b) { return a.first < b.first; });
    std::set<i64> done; Trace out; bool prog = true; std::vector<char> used(pr.size(), 0);
    while (prog) {
        prog = false;
        for (size_t k = 0; k < pr.size(); ++k) if (!used[k]) {
            bool ok = true; for (i64 d : dep[pr[k].second->at(0)]) if (present.count(d) && !done.count(d)) ok = false;
            if (ok) { used[k] = 1; done.insert(pr[k].second->at(0)); out.push_back(*pr[k].second); prog = true; if (style != 2) break; }
        }
    }
    return out;
}
std::map<i64, M> by_tag(Session &s) { auto v = s.states(); std::map<i64, M> r; for (size_t k = 0; k < v.size() && k < s.ntags.size(); ++k) r[s.ntags[k]] = v[k]; return r; }
double scale_of(const Session &s) { double m = 1; for (auto &n : s.mirror.nodes) m = std::max(m, n.x.cwiseAbs().maxCoeff()); return m; }
void compare_states(Session &a, Session &b, double tol, const char *cls, const char *what) {
    auto x = by_tag(a), y = by_tag(b); double sc = scale_of(a);
    if (x.size() != y.size()) fail(cls, fmt("%s: %zu against %zu nodes", what, x.size(), y.size()));
    for (auto &p : x) { if (!y.count(p.first)) fail(cls, fmt("%s: node missing", what)); double d = state_diff(a.mirror.n(p.first).kind, p.second, y[p.first]);
        if (!(d <= tol * sc)) fail(cls, fmt("%s: node with tag %lld differs by %.3g: %s against %s", what, (long long)p.first, d, mstr(p.second).c_str(), mstr(y[p.first]).c_str())); }
}
void compare_bits(Session &a, Session &b, const char *cls, const char *what) {
    auto x = by_tag(a), y = by_tag(b);
    if (x.size() != y.size()) fail(cls, fmt("%s: %zu against %zu nodes", what, x.size(), y.size()));
    for (auto &p : x) { const M &q = y[p.first]; if (q.size() != p.second.size() || memcmp(q.data(), p.second.data(), sizeof(double) * q.size())) fail(cls, fmt("%s: node with tag %lld: %s against %s", what, (long long)p.first, mstr(p.second).c_str(), mstr(q).c_str())); }
}
static bool pose3(int k) { return k == F1P3 || k == F2P3; }
bool coincident(const Graph &g) { for (auto &f : g.facs) if (f.kind == F1P1L2 && (position(2, g.n(f.nodes[0]).x) - position(2, g.n(f.nodes[1]).x)).norm() < 3e-3) return true; return false; }
void check_system(Session &s, const Graph &st, bool with_L, const char *when) {
    if (coincident(st)) return;      // no direction to such a landmark: the library deliberately substitutes a made-up linearisation
    M A, W; V r; st.system(A, W, r); M a = s.g->A(), w = s.g->W();
    if (a.rows() != A.rows() || a.cols() != A.cols()) fail("system-size", fmt("adjacency matrix is %dx%d, expected %dx%d %s", (int)a.rows(), (int)a.cols(), (int)A.rows(), (int)A.cols(), when));
    if (w.rows() != W.rows() || w.cols() != W.cols()) fail("system-size", fmt("weight matrix is %dx%d, expected %dx%d %s", (int)w.rows(), (int)w.cols(), (int)W.rows(), (int)W.cols(), when));
    V ca = s.g->chi2_array(); if (ca.size() != (int)st.facs.size()) fail("system-size", fmt("chi2 array has %d entries for %zu factors %s", (int)ca.size(), st.facs.size(), when));
    int row = 0; M Wf = W;
    for (size_t k = 0; k < st.facs.size(); ++k) {
        auto &f = st.facs[k]; int D = fdim(f.kind); double rn = r.segment(row, D).norm(), c2 = st.chi2(f), u = std::sqrt(c2);
        double ws = f.robust == RANSAC ? (u < 1 ? 1.0 : 0.0) : st.weight(f); if (f.robust == RANSAC && std::fabs(u - 1) < 1e-6) return;
        Wf.block(row, row, D, D) = ws * f.W;
        double tj = 1e-5 + (pose3(f.kind) ? 2 * rn : 0);
        V rm = V::Zero(D); if (A.cols()) rm = A.middleRows(row, D).cwiseAbs().rowwise().maxCoeff();
        for (int i = 0; i < D; ++i) for (int j = 0; j < A.cols(); ++j) if (!(std::fabs(a(row + i, j) - A(row + i, j)) <= tj * (1 + rm(i))))
            fail("adjacency", fmt("factor %zu (kind %d, |r| %.3g) row %d column %d: reported %.9g, linearisation gives %.9g %s", k, f.kind, rn, i, j, a(row + i, j), A(row + i, j), when));
        double wm = f.W.cwiseAbs().maxCoeff();
        for (int i = 0; i < D; ++i) for (int j = 0; j < W.cols(); ++j) { double e = Wf(row + i, j); if (j < row + i) { if (j < row && w(row + i, j) != 0) fail("weight", fmt("factor %zu weight outside its block %s", k, when)); continue; }
            if (!(std::fabs(w(row + i, j) - e) <= 1e-7 * wm)) fail("weight", fmt("factor %zu (robust %d, error %.6g) weight (%d,%d): reported %.9g, expected %.9g %s", k, f.robust, c2, i, j, w(row + i, j), e, when)); }
        if (!(std::fabs(ca(k) - c2) <= 1e-7 * (1 + c2) + 1e-9 * wm)) fail("factor-error", fmt("factor %zu (kind %d) error reported %.9g, expected %.9g %s", k, f.kind, ca(k), c2, when));
        row += D;
    }
    M ws = w.selfadjointView<Eigen::Upper>(); V b = s.g->b(), be = a.transpose() * (Wf * r); double bs; { V ra = r.cwiseAbs() * 1e-7 + V::Constant(r.size(), 5e-8); bs = (a.cwiseAbs().transpose() * (Wf.cwiseAbs() * ra)).maxCoeff(); }
    if (b.size() != be.size()) fail("system-size", fmt("right-hand side has %d entries, expected %d %s", (int)b.size(), (int)be.size(), when));
    for (int k = 0; k < b.size(); ++k) if (!(std::fabs(b(k) - be(k)) <= bs)) fail("right-hand-side", fmt("b(%d) reported %.9g, A'Wr gives %.9g %s", k, b(k), be(k), when));
    if (with_L) { M L = s.g->L(), Le = a.transpose() * ws * a; double ls = Le.cwiseAbs().maxCoeff();
        if (L.rows() != Le.rows() || L.cols() != Le.cols()) fail("system-size", fmt("information matrix is %dx%d %s", (int)L.rows(), (int)L.cols(), when));
        bool low = false, up = false; for (int i = 0; i < L.rows(); ++i) for (int j = 0; j < i; ++j) { if (L(i, j) != 0) low = true; if (L(j, i) != 0) up = true; }
        for (int i = 0; i < L.rows(); ++i) for (int j = 0; j < L.cols(); ++j) { if (!up && low && j > i) continue; if (up && !low && j < i) continue;
            if (!(std::fabs(L(i, j) - Le(i, j)) <= 1e-9 * (1e-12 + ls))) fail("information-matrix", fmt("L(%d,%d) reported %.12g, A'WA gives %.12g %s", i, j, L(i, j), Le(i, j), when)); } }
}
bool robust_any(const Trace &t) { for (auto &o : t) if (o.k == "fac" && o.at(2)) return true; return false; }
