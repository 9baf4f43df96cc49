// C01 C02 C03 C04 C05 C06 C07
#include "common.hpp"
using namespace ref;
static const char *SPARSE_DENSE = "FGraph, FGraphSolve, FGraphSolveDense, Optimizer, all nodes and factors, SE3/SO3 (real code)";
typedef world::Cfg Cfg;
// ------------------------------------------------------------------ C01
static Trace gen01(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.probes = false; GenOpt g; g.p_solve = 0.08; g.p_set = 0.03; Trace t = gen_session(r, c, g, st), o; if (r.p(0.3)) add_eigs(r, t, st);
    double p = r.u(0.1, 0.7);
    for (auto &x : t) {
        if ((x.k == "node" || x.k == "fac" || x.k == "eig" || x.k == "dup")) while (r.p(p)) { o.push_back(Op("oom", {r.p(0.8) ? r.i(1, 6) : r.i(1, 14), r.i(2), r.i(2)})); if (r.p(0.5)) break; }
        o.push_back(x);
    }
    return o;
}
struct Snap { std::vector<M> st; std::vector<i64> deg; i64 n, f, ds, dob; double c; };
static Snap snap(Session &s) { Snap p; p.st = s.states(); for (i64 t : s.ntags) p.deg.push_back(s.g->node_degree(t)); p.n = s.g->n_nodes(); p.f = s.g->n_facs(); p.ds = s.g->dim_state(); p.dob = s.g->dim_obs(); p.c = s.g->chi2(true); return p; }
static void cmp_snap(const Snap &a, const Snap &b, const char *what) {
    if (a.n != b.n || a.f != b.f) fail("atomic-counts", fmt("%s: %lld nodes %lld factors became %lld and %lld", what, (long long)a.n, (long long)a.f, (long long)b.n, (long long)b.f));
    if (a.ds != b.ds || a.dob != b.dob) fail("atomic-dims", fmt("%s: dimensions (%lld,%lld) became (%lld,%lld)", what, (long long)a.ds, (long long)a.dob, (long long)b.ds, (long long)b.dob));
    if (a.deg != b.deg) fail("atomic-neighbours", fmt("%s: a node's list of factors changed", what));
    if (a.st.size() != b.st.size()) fail("atomic-states", fmt("%s: number of states changed", what));
    for (size_t k = 0; k < a.st.size(); ++k) if (memcmp(a.st[k].data(), b.st[k].data(), 8 * a.st[k].size())) fail("atomic-states", fmt("%s: state %zu changed", what, k));
    if (memcmp(&a.c, &b.c, 8)) fail("atomic-error", fmt("%s: total error %.17g became %.17g", what, a.c, b.c));
}
static void run01(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); Session a(cx, cfg_kind(t)), b(cq, cfg_kind(t)); std::vector<Op> pend;
    for (auto &o : t) {
        if (o.k == "oom") { pend.push_back(o); continue; }
        if (o.k == "node" || o.k == "fac" || o.k == "eig" || o.k == "dup") {
            Op x = o; bool done = false;
            for (auto &f : pend) {
                if (done || (o.k != "dup" && !a.can(x))) break;
                Snap before = snap(a); if (f.at(2) && x.k != "dup") { size_t fi = x.k == "node" ? 3 : x.k == "eig" ? 2 : 5; while (x.i.size() <= fi) x.i.push_back(0); x.i[fi] |= sut::F_FRESH; }
                rt::alloc_arm(f.at(0), f.at(1)); bool threw = false;
                try { exec(a, x); done = true; } catch (std::bad_alloc &) { threw = true; } catch (std::exception &) { threw = true; }
                bool fired = rt::alloc_disarm(); if (fired) cx.st.add(f.at(1) ? "oom_sticky" : "oom_once");
                if (threw && !fired) fail("unexpected-exception", "an edit failed although memory was available");
                if (threw) { cx.st.add("edit_failed"); cmp_snap(before, snap(a), o.k == "node" ? "failed add_node" : o.k == "fac" ? "failed add_factor" : o.k == "eig" ? "failed add_eigen_factor" : "failed re-add"); }
            }
            if (!done) exec(a, x);
            exec(b, o); pend.clear(); a.check_counts("after an edit");
            for (size_t k = 0; k < a.ntags.size(); ++k) if (a.g->node_degree(a.ntags[k]) != b.g->node_degree(b.ntags[k])) fail("twin-neighbours", fmt("node %zu has %lld factors, %lld in the undisturbed twin", k, (long long)a.g->node_degree(a.ntags[k]), (long long)b.g->node_degree(b.ntags[k])));
            continue;
        }
        bool ra = exec(a, o), rb = exec(b, o); if (ra != rb) fail("twin-differs", "the disturbed session could not repeat what the undisturbed one did");
        compare_bits(a, b, "twin-states", "graph with failed edits against undisturbed twin");
    }
    if (a.g->n_nodes()) { double x = a.g->chi2(true), y = b.g->chi2(true); if (memcmp(&x, &y, 8)) fail("twin-error", fmt("total error %.17g, undisturbed twin %.17g", x, y)); cx.dg.d(x); }
    for (size_t k = 0; k < a.ntags.size(); ++k) if (a.g->node_id(a.ntags[k]) != (i64)k) fail("twin-ids", fmt("node object %zu carries id %lld", k, (long long)a.g->node_id(a.ntags[k])));
    for (size_t k = 0; k < a.ftags.size(); ++k) if (a.g->fac_id(a.ftags[k]) != (i64)k) fail("twin-ids", fmt("factor object %zu carries id %lld", k, (long long)a.g->fac_id(a.ftags[k])));
    for (size_t k = 0; k < a.etags.size(); ++k) if (a.g->eig_id(a.etags[k]) != (i64)k) fail("twin-ids", fmt("eigen factor object %zu carries id %lld", k, (long long)a.g->eig_id(a.etags[k])));
    compare_bits(a, b, "twin-states", "graph with failed edits against undisturbed twin"); a.digest_states();
}
static Reg r01({"C01", gen01, run01, 4000, 60000, 400000000ULL, SPARSE_DENSE, "allocation failure (one-shot and persistent) at a chosen allocation of add_node, add_factor and object construction; re-delivered messages; message loss, duplication, delay, reordering, partition"});
// ------------------------------------------------------------------ C02
static Trace gen02(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.probes = r.p(0.8); c.init = 0.02; c.noise = std::min(c.noise, 1e-3); GenOpt g; g.p_solve = 0.05; g.tail = 0; g.dup = r.p(0.3); Trace t = gen_session(r, c, g, st); int gk = cfg_kind(t);
    int n = r.i(1, 4);
    for (int k = 0; k < n; ++k) {
        int kind = r.i(4);
        if (kind == 0) t.push_back(Op("oom", {(i64)std::pow(10.0, r.u(0, 3)), r.i(2)}));
        else if (kind == 1) t.push_back(Op("throw", {(i64)std::pow(10.0, r.u(0, 2.7))}));
        else if (kind == 2) t.push_back(Op("sink", {r.i(1, 3), (i64)std::pow(10.0, r.u(0, 2.5)) - 1}));
        else t.push_back(Op("oom", {r.i(1, 40), r.i(2)}));
        t.push_back(solve_op(r, gk, true, 8));
    }
    return t;
}
static void clone_from(Session &src, Session &dst) {
    for (i64 t : src.ntags) { dst.add(src.fop[t]); }
    auto m = by_tag(src); for (auto &p : m) { dst.g->set_state(p.first, p.second); }
    for (i64 t : src.ftags) { Op o = src.fop[t]; if (o.i.size() > 5) o.i[5] &= ~sut::F_INIT; dst.add(o); }
    dst.sync();
}
static void run02(const Trace &t, Ctx &cx) {
    Stats quiet; Ctx cq(quiet); Session a(cx, cfg_kind(t)), b(cq, cfg_kind(t)); const Op *pend = nullptr; bool any = false;
    for (auto &o : t) {
        if (o.k == "oom" || o.k == "throw" || o.k == "sink") { pend = &o; continue; }
        if (o.k == "solve" && pend) {
            a.sync(); if (!a.wellposed(1e-6) || !states_sane(a)) { pend = nullptr; continue; }
            Op f = *pend; pend = nullptr; bool threw = false, fired = false;
            std::vector<i64> deg; for (i64 n : a.ntags) deg.push_back(a.g->node_degree(n));
            if (f.k == "oom") rt::alloc_arm(f.at(0), f.at(1)); if (f.k == "throw") { sut::probe.seen = 0; sut::probe.throw_at = f.at(0); }
            if (f.k == "sink") rt::sink_mode((int)f.at(0), f.at(1), true);
            u64 sf = rt::sink_faults();
            try { a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); } catch (Violation &) { throw; } catch (std::exception &) { threw = true; }
            fired = rt::alloc_disarm(); if (f.k == "throw") fired = sut::probe.seen >= sut::probe.throw_at; sut::probe.throw_at = 0; if (f.k == "sink") fired = rt::sink_faults() > sf; rt::sink_reset();
            if (fired) { cx.st.add("fault_" + f.k); } if (threw) { cx.st.add("solve_interrupted"); any = true; }
            if (threw && !fired) fail("unexpected-exception", "a solve failed although no fault was injected");
            a.check_counts("after an interrupted solve"); a.check_valid("after an interrupted solve"); a.check_anchors("by an interrupted solve"); a.sync();
            for (size_t k = 0; k < a.ntags.size(); ++k) if (deg[k] != a.g->node_degree(a.ntags[k])) fail("neighbours-changed", fmt("node %zu lost or gained factors in an interrupted solve", k));
            if (!threw && !states_sane(a)) return;
            // a fresh graph given the same states must continue identically
            Session c(cq, a.gkind); clone_from(a, c); compare_bits(a, c, "harness", "clone");
            if (!a.wellposed(1e-6)) { cx.st.add("left_basin"); return; }
            Session *q[2] = {&a, &c}; for (auto s : q) s->g->solve(0, 1, 1e-6, 1e-2);
            if (a.gkind == sut::SPARSE) {
                auto near = [&](const M &x, const M &y, const char *what) { double sc = y.size() ? y.cwiseAbs().maxCoeff() : 0; if (x.rows() != y.rows() || x.cols() != y.cols()) fail("continues-differently", fmt("%s is %ldx%ld, of a fresh graph %ldx%ld", what, (long)x.rows(), (long)x.cols(), (long)y.rows(), (long)y.cols())); if (finite(y) && !((x - y).cwiseAbs().sum() <= 1e-9 * (1 + sc) * (1 + y.size()))) fail("continues-differently", fmt("%s differs from that of a fresh graph with the same states", what)); };
                near(a.g->A(), c.g->A(), "adjacency matrix"); near(a.g->W(), c.g->W(), "weight matrix"); near(a.g->L(), c.g->L(), "information matrix"); near(a.g->b(), c.g->b(), "right-hand side"); near(a.g->chi2_array(), c.g->chi2_array(), "error array"); cx.st.add("systems_compared");
            }
            a.sync(); c.sync(); compare_states(a, c, 1e-9, "continues-differently", "solve after an interrupted solve against a fresh graph with the same states");
            { double x = a.g->chi2(true), y = c.g->chi2(true); if (std::isfinite(y) && !(std::fabs(x - y) <= 1e-9 * (1 + std::fabs(y)))) fail("continues-differently", fmt("error %.12g, fresh graph %.12g", x, y)); }
            if (!states_sane(a, 1e3)) return;
            continue;
        }
        pend = nullptr; exec(a, o);
        if (o.k != "solve") exec(b, o);
    }
    a.check_counts("at the end");
    // tail: both reach the same optimum
    a.sync(); b.sync(); if (a.ntags.empty() || !a.wellposed(1e-5) || !b.wellposed(1e-5)) return;
    Graph start = b.mirror; bool conv = false; int mi = 12;
    for (int k = 0; k < mi; ++k) { a.g->solve(0, 1, 1e-6, 1e-2); b.g->solve(0, 1, 1e-6, 1e-2); }
    a.sync(); b.sync(); if (!states_sane(a, 1e3) || !states_sane(b, 1e3) || !a.wellposed(1e-5) || !b.wellposed(1e-5)) { cx.st.add("tail_not_comparable"); return; }
    V dx; conv = b.mirror.gn_step(dx) < 1e-7; if (!conv) { cx.st.add("tail_not_converged"); return; }
    cx.st.add(any ? "tail_compared_after_fault" : "tail_compared");
    double ca = a.mirror.chi2(), cb = b.mirror.chi2(); if (ca > 10 * cb + 1 ) { cx.st.add("other_basin"); return; }
    compare_states(a, b, 1e-4, "other-optimum", "after the fault-free tail"); a.digest_states();
}
static Reg r02({"C02", gen02, run02, 3600, 60000, 600000000ULL, SPARSE_DENSE, "allocation failure at any point of a solve; exception from a user factor at any callback; output device failing, truncating or throwing with stream exceptions enabled; network faults while building"});
// ------------------------------------------------------------------ C03
static Trace gen03(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); static const double in[] = {0.05, 0.3, 1, 3}; c.init = in[r.i(4)]; static const double nz[] = {0, 1e-2, 0.3}; c.noise = nz[r.i(3)]; c.wspread = r.u(0, 6); c.robust = r.p(0.4); c.ransac = false; c.probes = r.p(0.5);
    GenOpt g; g.p_solve = 0; g.tail = 0; g.p_set = r.p(0.5) ? 0.1 : 0; Trace t = gen_session(r, c, g, st); int gk = cfg_kind(t);
    int n = r.i(1, 5); static const double lam[] = {1e-12, 1e-6, 1e-2, 1, 1e3}, tol[] = {0, 1e-8, 1e-2, 10};
    for (int k = 0; k < n; ++k) t.push_back(Op("solve", {gk == sut::DENSE ? r.i(1, 2) : 1, r.p(0.5) ? 1 : r.i(1, 25)}, {lam[r.i(5)], tol[r.i(4)]}));
    if (r.p(0.5)) for (size_t k = t.size() / 2; k < t.size(); k += 3 + t.size() / 60) t.insert(t.begin() + k, Op("solve", {1, r.i(1, 3)}, {1e-6, 1e-2}));
    if (r.p(0.2)) {     // a state absurdly far away: the numbers overflow inside the solve
        std::vector<ref::Node> all; size_t at = 0; for (size_t k = 0; k < t.size(); ++k) { if (t[k].k == "node" && !t[k].at(2)) all.push_back(to_node(t[k])); if (t[k].k == "node" || t[k].k == "fac") at = k + 1; }
        double e = r.p(0.5) ? r.u(60, 153) : r.u(2, 160);
        for (int j = all.empty() ? 0 : r.i(1, 2); j > 0; --j) { auto &u = all[r.i((int)all.size())]; M x = u.x; double s = std::pow(10.0, e); if (u.kind == P3) { for (int k = 0; k < 3; ++k) x(k, 3) = s * r.u(-1, 1); } else if (u.kind == PL) x(3) = s * r.u(0.1, 1); else for (int k = 0; k < x.size(); ++k) x(k) = s * r.u(-1, 1);
            Op q("sst", {u.tag}); q.d = world::flat(x); t.insert(t.begin() + at, q); st.add("far_states"); }
    }
    return t;
}
static void run03(const Trace &t, Ctx &cx) {
    Session a(cx, cfg_kind(t)); size_t lastsolve = t.size(); bool probes = a.gkind == sut::SPARSE;
    for (size_t k = 0; k < t.size(); ++k) { if (t[k].k == "solve") lastsolve = k; if (t[k].k == "fac" && !(t[k].at(5) & sut::F_PROBE)) probes = false; }
    for (auto &o : t) {
        if (o.k != "solve") { exec(a, o); continue; }
        a.sync(); if (!a.mirror.state_dim() || a.mirror.facs.empty()) continue;
        bool fin = true; for (auto &n : a.mirror.nodes) fin = fin && finite(n.x); if (!fin) continue;
        double before = a.g->chi2(true); if (!std::isfinite(before)) continue;
        double ref0 = a.mirror.chi2(); auto s0 = a.states(); Graph m0 = a.mirror;
        if (std::isfinite(ref0) && ref0 < 1e9 && !(std::fabs(before - ref0) <= 1e-6 * (1 + ref0))) {   // the baseline itself must be the error of the current states
            bool edge = false; for (auto &f : a.mirror.facs) { V r = a.mirror.res(f); if (r.size() >= 3 && r.cwiseAbs().maxCoeff() > 3.0) edge = true; } if (!edge && !robust_any(t)) fail("error-wrong", fmt("total error %.12g reported, factors give %.12g", before, ref0)); }
        i64 j0 = sut::probe.jac; a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); i64 its = (sut::probe.jac - j0) / (i64)a.mirror.facs.size(); double after = a.g->chi2(true); a.sync();
        if (probes && &o == &t[lastsolve] && its > 0 && its < o.at(1)) {   // it stopped early: the last step must have gained less than the tolerance asked for
            double prev = before; if (its > 1) { Stats quiet; Ctx cq(quiet); Session b(cq, a.gkind); for (size_t k = 0; k < lastsolve; ++k) { auto &q = t[k]; if (q.k != "solve") { exec(b, q); continue; } b.sync(); if (!b.mirror.state_dim() || b.mirror.facs.empty()) continue; bool f2 = true; for (auto &n : b.mirror.nodes) f2 = f2 && finite(n.x); if (!f2 || !std::isfinite(b.g->chi2(true))) continue; b.solve((int)q.at(0), (unsigned)q.at(1), q.fd(0), q.fd(1)); b.g->chi2(true); b.sync(); } b.g->chi2(true); b.solve(1, (unsigned)its - 1, o.fd(0), -1); prev = b.g->chi2(true); }
            cx.st.add("early_stops_checked"); if (!(prev - after <= o.fd(1) + 1e-9 * (1 + prev))) fail("stopped-early", fmt("stopped after %lld of %lld iterations although its last step lowered the error from %.12g to %.12g, tolerance %.3g", (long long)its, (long long)o.at(1), prev, after, o.fd(1)));
        } auto s1 = a.states(); cx.dg.d(after);
        if (!(after <= before * (1 + 1e-9) + 1e-15)) fail("error-increased", fmt("error %.12g before and %.12g after a Levenberg-Marquardt solve of %lld iterations", before, after, (long long)o.at(1)));
        a.check_anchors("in a Levenberg-Marquardt solve");
        size_t same = 0, diff = 0; std::vector<char> eq(s0.size());
        for (size_t k = 0; k < s0.size(); ++k) if (!a.mirror.nodes[k].anchor) { eq[k] = !memcmp(s0[k].data(), s1[k].data(), 8 * s0[k].size()); (eq[k] ? same : diff)++; }
        cx.st.add(diff ? "lm_moved" : "lm_all_rejected");
        if (after == before && diff && o.at(1) == 1 && states_sane(a, 1e4)) { // equal error: either nothing moved or the step was accepted as a whole
            for (size_t k = 0; k < s0.size(); ++k) if (!a.mirror.nodes[k].anchor && !eq[k]) { double d = state_diff(a.mirror.nodes[k].kind, s0[k], s1[k]); if (d > 1e-6) fail("step-not-undone", fmt("node %zu moved by %.3g although the error is unchanged", k, d)); } }
        if (o.at(1) == 1 && same && diff) {
            // a node the damped step must move, that did not move at all while others did
            V dx = V::Constant(m0.state_dim(), NAN); if (a.gkind == sut::SPARSE) { M L = M(a.g->L()).selfadjointView<Eigen::Lower>(); V b = a.g->b(); if (L.rows() == b.size() && b.size() == dx.size()) dx = -L.ldlt().solve(b); } int c = 0; double mv = 0;   // the system the library solved
            for (size_t j = 0; j < s0.size(); ++j) mv = std::max(mv, state_diff(m0.nodes[j].kind, s0[j], s1[j]));
            for (size_t k = 0; k < s0.size(); ++k) if (!m0.nodes[k].anchor) { int d = ndim(m0.nodes[k].kind);
                if (eq[k] && mv > 1e-5 && finite(dx) && a.wellposed(1e-9) && a.gkind == sut::SPARSE) { double want = state_diff(m0.nodes[k].kind, s0[k], retract(m0.nodes[k].kind, s0[k], V(dx.segment(c, d)))); if (want > 1e-6 && want > 1e-3 * mv) fail("step-partly-undone", fmt("in one iteration node %zu stayed exactly where it was although the step moves it by %.3g, others moved by %.3g", k, want, mv)); }
                c += d; } }
    }
    a.digest_states();
}
static Reg r03({"C03", gen03, run03, 4500, 100000, 600000000ULL, SPARSE_DENSE, "arbitrarily bad starting states, stiff information matrices, robust kernels, tiny iteration budgets, solves between late arrivals; network faults while building"});
// ------------------------------------------------------------------ C04
static Trace gen04(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.noise = r.p(0.5) ? 0 : r.p(0.5) ? 1e-3 : 1e-2; c.init = 0.02; c.robust = r.p(0.4); if (c.robust && r.p(0.6)) { c.outliers = 0.3; c.mode = 0; c.noise = 1e-2; c.wspread = r.u(0, 3); if (r.p(0.5)) c.init = 0.1; }
    GenOpt g; g.p_solve = r.p(0.5) ? 0.1 : 0; g.p_upd = r.p(0.5) ? 0.1 : 0; g.p_set = r.p(0.3) ? 0.05 : 0; g.tail = 0; g.lm = true; g.p_query = 0.03; Trace t = gen_session(r, c, g, st); int gk = cfg_kind(t);
    t[0].d = {c.noise}; if (r.p(0.3)) t.push_back(Op("oom", {r.i(1, 200), 0})), t.push_back(solve_op(r, gk, true, 5));
    t.push_back(Op("tail", {r.i(2), 15})); return t;
}
static void run04(const Trace &t, Ctx &cx) {
    Session a(cx, cfg_kind(t)); const Op *pend = nullptr; double noise = t.empty() ? 0 : t[0].fd(0); bool rob = robust_any(t); Op tail("tail", {0, 15});
    for (auto &o : t) {
        if (o.k == "oom") { pend = &o; continue; } if (o.k == "tail") { tail = o; continue; }
        if (pend && o.k == "solve") { a.sync(); if (a.wellposed(1e-6)) { rt::alloc_arm(pend->at(0), pend->at(1)); try { exec(a, o); } catch (std::exception &) { cx.st.add("solve_interrupted"); } rt::alloc_disarm(); a.sync(); } pend = nullptr; continue; }
        if (o.k == "sst" && noise == 0 && a.mirror.idx.count(o.at(0)) && a.mirror.n(o.at(0)).anchor) continue;      // an anchor put elsewhere contradicts the noise-free measurements
        exec(a, o);
    }
    a.sync(); if (a.ntags.empty() || !a.wellposed(1e-5) || !states_sane(a, 1e3)) { cx.st.add("illposed"); return; }
    // the starting point of the tail must be near the solution: the reference solver, started there, converges without leaving it
    Graph rf = a.mirror; V dx; double s0 = rf.gn_step(dx); if (!(s0 < 0.4)) { cx.st.add("start_too_far"); return; }
    if (!rf.solve(60, 1e-10) || !(rf.gn_step(dx) < 1e-9)) { cx.st.add("reference_did_not_converge"); return; }
    for (size_t k = 0; k < rf.nodes.size(); ++k) if (state_diff(rf.nodes[k].kind, rf.nodes[k].x, a.mirror.nodes[k].x) > 0.6) { cx.st.add("reference_left_basin"); return; }
    double cref = rf.chi2(); bool lm = tail.at(0) && !rob; int n = (int)tail.at(1, 15);
    if (a.gkind == sut::DENSE) { for (int k = 0; k < n; ++k) a.g->solve(lm ? 1 : 0, lm ? 10 : 1, 1e-6, 1e-12); }
    else for (int k = 0; k < n; ++k) a.g->solve(lm, lm ? 20 : 1, 1e-6, 1e-14);
    if (rob && a.gkind == sut::SPARSE) for (int k = 0; k < 40; ++k) a.g->solve(0, 1, 1e-6, 1e-14);
    if (rob && a.gkind == sut::DENSE) return;    // the dense solver documents no robust kernels
    a.sync(); a.check_valid("after the tail"); a.check_anchors("in the tail"); cx.st.add("tails");
    double c = a.mirror.chi2(), lib = a.g->chi2(true), step = a.mirror.gn_step(dx); cx.dg.d(lib); a.digest_states();
    if (!(std::fabs(lib - c) <= 1e-7 * (1 + c))) fail("error-wrong", fmt("total error %.12g reported, factors give %.12g", lib, c));
    bool has3 = false; double smax = 0; double big = 0; for (auto &f : rf.facs) if (f.kind >= F1P3) { has3 = true; big = std::max(big, rf.res(f).norm()); }      // the 3D Jacobians hold to first order in the residual
    if (!rob) {
        if (!(c <= cref * (1 + (has3 ? 1e-3 + big * big : 1e-6)) + 1e-9)) fail("not-minimum", fmt("after %d solves the cost is %.12g, a minimiser reaches %.12g (step %.3g)", n, c, cref, step));
        if (!has3 && !(step < 1e-5)) fail("not-minimum", fmt("after %d solves the estimate still moves by %.3g", n, step));
        if (has3 && !(step < 0.05 + big * big)) fail("not-minimum", fmt("after %d solves the estimate is %.3g from a minimiser", n, step));
    } else if (!(step < (has3 ? 0.05 + big * big : 1e-3))) fail("not-minimum", fmt("after %d solves the robust estimate still moves by %.3g", n, step));
    if (noise == 0) { for (auto &f : a.mirror.facs) { double e = a.mirror.res(f).cwiseAbs().maxCoeff(); smax = std::max(smax, e); }
        if (!(smax < 1e-5)) fail("not-truth", fmt("noise-free measurements, yet a residual of %.3g remains", smax)); cx.st.add("noise_free"); }
}
static Reg r04({"C04", gen04, run04, 2200, 40000, 900000000ULL, SPARSE_DENSE, "message loss, duplication, delay, reordering, partition; intermediate solves; states overwritten; allocation failure inside an intermediate solve"});
// ------------------------------------------------------------------ C05
static Trace gen05(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); GenOpt g; g.p_solve = 0; g.tail = 0; g.dup = false; Trace t = gen_session(r, c, g, st); int gk = cfg_kind(t);
    int n = r.i(1, 3); for (int k = 0; k < n; ++k) t.push_back(Op("order", {(i64)(r.next() >> 2)}));
    n = r.i(1, 4); for (int k = 0; k < n; ++k) t.push_back(Op("solve", {gk == sut::DENSE ? 0 : r.p(0.2) ? 1 : 0, 1 + 4 * r.i(2)}, {1e-6, 1e-2})); return t;
}
static void run05(const Trace &t, Ctx &cx) {
    int gk = cfg_kind(t); std::vector<std::unique_ptr<Session>> v; Stats quiet; Ctx cq(quiet);
    v.emplace_back(new Session(cx, gk)); for (auto &o : t) if (o.k == "node" || o.k == "fac") v[0]->add(o);
    for (auto &o : t) if (o.k == "order") { v.emplace_back(new Session(cq, gk)); for (auto &x : permute(t, (u64)o.at(0))) v.back()->add(x); cx.st.add("replicas"); }
    for (size_t k = 1; k < v.size(); ++k) { if (v[k]->ntags.size() != v[0]->ntags.size()) return; if (v[k]->ftags.size() != v[0]->ftags.size()) return; }
    if (v[0]->ntags.empty()) return;
    auto errs = [&](Session &s) { std::map<i64, double> m; s.g->chi2(true); for (size_t k = 0; k < s.ftags.size(); ++k) m[s.ftags[k]] = s.g->get_fac_chi2(k); return m; };
    auto cmp = [&](const char *when, double tol) {
        auto e0 = errs(*v[0]); double c0 = v[0]->g->chi2(true); cx.dg.d(c0);
        for (size_t k = 1; k < v.size(); ++k) {
            auto e = errs(*v[k]); for (auto &p : e0) if (!(std::fabs(p.second - e[p.first]) <= tol * 100 * (1 + std::fabs(p.second)))) fail("order-error", fmt("error of the same measurement is %.12g in one arrival order and %.12g in another %s", p.second, e[p.first], when));
            double c = v[k]->g->chi2(true); if (!(std::fabs(c - c0) <= tol * 100 * (1 + c0))) fail("order-error", fmt("total error %.12g in one arrival order, %.12g in another %s", c0, c, when));
            v[k]->sync(); compare_states(*v[0], *v[k], tol, "order-estimate", fmt("same data, other arrival order, %s", when).c_str());
        }
    };
    cmp("before solving", 1e-11);
    for (auto &o : t) if (o.k == "solve") {
        v[0]->sync(); if (!v[0]->wellposed(1e-6) || !states_sane(*v[0], 1e3)) { cx.st.add("solve_skipped_illposed"); break; }
        for (auto &s : v) { s->solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); s->sync(); }
        if (!v[0]->wellposed(1e-6) || !states_sane(*v[0], 1e3)) { cx.st.add("solve_left_basin"); break; }
        bool far = false; for (auto &f : v[0]->mirror.facs) if (!(v[0]->mirror.res(f).cwiseAbs().maxCoeff() < 1.5)) far = true; if (far) { cx.st.add("solve_left_basin"); break; }
        cmp("after a solve", 3e-6);
    }
    v[0]->digest_states();
}
static Reg r05({"C05", gen05, run05, 6000, 60000, 900000000ULL, SPARSE_DENSE, "message delay and reordering (several replicas per run), loss with re-sending, partition"});
// ------------------------------------------------------------------ C06
static Trace gen06(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.robust = r.p(0.6); c.ransac = r.p(0.4); c.wspread = r.u(0, 4); c.probes = r.p(0.2); GenOpt g; g.p_solve = 0.1; g.p_query = 0.1; g.p_upd = 0.05; g.p_set = 0.04; g.gkind = sut::SPARSE; Trace t = gen_session(r, c, g, st), o; bool far = r.p(0.3);
    for (auto &q : t) { // states thrown far away: errors of any size add up
        o.push_back(q); if (q.k == "sst" && far && r.p(0.5)) { double a = std::pow(10.0, r.u(1, 7)); Op w = q; if (q.d.size() == 16) for (int k = 0; k < 3; ++k) w.d[4 * k + 3] += a * r.n(); else if (q.d.size() == 3 || q.d.size() == 2) for (int k = 0; k < 2; ++k) w.d[k] += a * r.n(); else continue; o.push_back(w); o.push_back(Op("chk")); st.add("states_far"); if (r.p(0.7)) o.push_back(q); }
        else if (r.p(0.05)) o.push_back(Op("chk")); }
    o.push_back(Op("chk")); o.push_back(Op("solve", {0, 1}, {1e-6, 1e-2})); return o;
}
// errors of every factor and their sum at the present states, however large
static void check_errors(Session &a, Ctx &cx) {
    a.sync(); double c = a.g->chi2(true), e = 0, lim = 0; cx.st.add("error_sums_checked"); bool skip = false;
    for (size_t k = 0; k < a.mirror.facs.size(); ++k) {
        auto &f = a.mirror.facs[k]; V r = a.mirror.res(f); double ang = f.kind <= FODO ? std::fabs(r(2)) : f.kind == F1P1L2 ? std::fabs(r(1)) : f.kind == F1P3 || f.kind == F2P3 ? r.head(3).norm() : 0, size = 1; bool odd = !(ang < 2.5);
        std::vector<const Node *> n; for (i64 t : f.nodes) if (t) n.push_back(&a.mirror.n(t)); for (auto p : n) size = std::max(size, p->x.cwiseAbs().maxCoeff()); double s2 = f.kind == F1P1PL ? size * size : size;
        if (f.kind == F1P1L2 && n.size() > 1) { auto p = n[0]->kind == P2 ? n[0] : n[1], l = n[0]->kind == P2 ? n[1] : n[0]; if (!((p->x.topRows(2) - l->x.topRows(2)).norm() > 1e-7 * size)) odd = true; }
        if (f.kind == F1P1PL) for (int j = 0; j < r.size(); ++j) if (n.size() > 1) { auto p = n[0]->kind == P3 ? n[0] : n[1], l = n[0]->kind == P3 ? n[1] : n[0]; M4 T = M4(p->x); double d = (T.transpose() * V(l->x))(3); if (std::fabs(d) < 1e-9 * s2) odd = true; }
        double x = a.g->get_fac_chi2(k), y = a.mirror.chi2(f), tol = 1e-7 * (1 + y) + f.W.norm() * (r.norm() + 1e-12 * s2) * 1e-12 * s2; if (odd || !std::isfinite(y)) { skip = true; continue; }
        if (!(std::fabs(x - y) <= tol)) fail("factor-error", fmt("factor %zu error %.12g reported, %.12g expected (states up to %.3g)", k, x, y, size)); e += y; lim += tol; cx.dg.d(x);
    }
    if (!skip && !(std::fabs(c - e) <= lim)) fail("total-error", fmt("total error %.12g reported, factors give %.12g", c, e)); if (!skip && e > 1e12) cx.st.add("error_sums_beyond_1e12");
}
// the total without evaluating anything is the sum of the errors the factors hold
static void check_stored(Session &a, Ctx &cx, const char *when) {
    double c = a.g->chi2(false), e = 0; for (size_t k = 0; k < a.ftags.size(); ++k) e += a.g->get_fac_chi2(k);
    if (std::isfinite(e) && !(std::fabs(c - e) <= 1e-9 * e)) fail("total-stored", fmt("total of the stored errors %.12g, the factors hold %.12g %s", c, e, when)); cx.st.add("stored_totals");
}
static void run06(const Trace &t, Ctx &cx) {
    Session a(cx, sut::SPARSE);
    for (auto &o : t) {
        if (o.k == "chk") { check_errors(a, cx); check_stored(a, cx, "after an evaluation"); continue; }
        if (o.k != "solve") { exec(a, o); continue; }
        a.sync(); if (!a.wellposed(1e-9) || !states_sane(a)) continue;
        Graph st = a.mirror; a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1));
        bool big = false; for (auto &f : st.facs) { if (!(st.res(f).cwiseAbs().maxCoeff() < 2.5)) big = true; } if (big || coincident(st)) { cx.st.add("far"); a.sync(); continue; }
        if (!o.at(0)) { check_system(a, st, true, "after a Gauss-Newton solve"); cx.st.add("systems_checked"); M L = a.g->L(); for (int k = 0; k < L.rows(); ++k) cx.dg.d(L(k, k)); }
        check_stored(a, cx, "after a solve"); a.sync(); double c = a.g->chi2(true), e = a.mirror.chi2(); double far = 0; for (auto &f : a.mirror.facs) far = std::max(far, a.mirror.res(f).cwiseAbs().maxCoeff());
        if (far < 2.5 && !(std::fabs(c - e) <= 1e-7 * (1 + e))) fail("total-error", fmt("total error %.12g reported, factors give %.12g", c, e));
        for (size_t k = 0; far < 2.5 && k < a.mirror.facs.size(); ++k) { double x = a.g->get_fac_chi2(k), y = a.mirror.chi2(a.mirror.facs[k]); if (!(std::fabs(x - y) <= 1e-7 * (1 + y))) fail("factor-error", fmt("factor %zu error %.12g reported, %.12g expected", k, x, y)); }
    }
    a.digest_states();
}
static Reg r06({"C06", gen06, run06, 3600, 60000, 600000000ULL, "FGraph, FGraphSolve, all nodes, factors and robust kernels (real code)", "network faults while building, queries and state overwrites between solves, user-derived factors"});
// ------------------------------------------------------------------ C07
static Trace gen07(Rng &r, int size, Stats &st) {
    Cfg c = world::random_cfg(r, size); c.p_anchor = r.u(0.3, 1); c.probes = r.p(0.5); c.init = r.p(0.3) ? 1.0 : 0.05; GenOpt g; g.p_solve = 0.15; g.p_query = 0.08; g.p_upd = 0.05; g.p_set = 0.06; Trace t = gen_session(r, c, g, st), o;
    for (auto &x : t) { if (x.k == "solve" && r.p(0.3)) o.push_back(r.p(0.5) ? Op("oom", {(i64)std::pow(10.0, r.u(0, 2.5)), r.i(2)}) : Op("throw", {(i64)std::pow(10.0, r.u(0, 2.3))})); o.push_back(x); } return o;
}
static void run07(const Trace &t, Ctx &cx) {
    Session a(cx, cfg_kind(t)); const Op *pend = nullptr;
    for (auto &o : t) {
        if (o.k == "oom" || o.k == "throw") { pend = &o; continue; }
        bool fault = false;
        if (o.k == "solve") {
            a.sync(); Graph st = a.mirror; bool ok = a.wellposed() && states_sane(a); fault = pend != nullptr;
            if (ok) {
                if (pend && pend->k == "oom") rt::alloc_arm(pend->at(0), pend->at(1)); if (pend && pend->k == "throw") { sut::probe.seen = 0; sut::probe.throw_at = pend->at(0); }
                try { a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); } catch (Violation &) { throw; } catch (std::exception &) { cx.st.add("solve_interrupted"); }
                rt::alloc_disarm(); sut::probe.throw_at = 0; a.sync();
                double far = 0; for (auto &f : st.facs) far = std::max(far, st.res(f).cwiseAbs().maxCoeff());
                if (a.gkind == sut::SPARSE && !fault && o.at(0) == 0 && far < 2.5) { check_system(a, st, true, "with anchors"); cx.st.add("systems_checked"); }
            }
            pend = nullptr;
        } else exec(a, o);
        a.check_anchors(o.k.c_str()); a.check_counts(o.k.c_str());
        for (auto &p : a.anchor0) { M x = a.g->node_state(p.first); if (memcmp(x.data(), p.second.data(), 8 * x.size())) fail("anchor-moved", "an anchored node's own handle reports another state"); }
        cx.st.add("anchor_checks", (i64)a.anchor0.size());
    }
    a.digest_states();
}
static Reg r07({"C07", gen07, run07, 3600, 50000, 600000000ULL, SPARSE_DENSE, "allocation failures and throwing user factors inside solves, late anchors, network faults, far-off starting states"});
