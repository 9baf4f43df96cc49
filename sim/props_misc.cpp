// C11 C12 C13 C17: clocks, synthetic scenes, output devices, object lifetimes
#include "planes.hpp"
#include "common.hpp"
#include "mrob/create_points.hpp"
#include "mrob/time_profiling.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/SE3cov.hpp"
#include "rt_threads.hpp"
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace planes;
typedef world::Cfg Cfg;
static V6 rxi(Rng &r, double rot, double tr) { V3 a(r.n(), r.n(), r.n()), b(r.n(), r.n(), r.n()); a *= rot * r.u() / std::max(1e-9, a.norm()); b *= tr * r.u() / std::max(1e-9, b.norm()); V6 x; x << a, b; return x; }
static bool bits(const M4 &a, const M4 &b) { return !memcmp(a.data(), b.data(), 128); }
// a plane session embedded in a larger one
static Trace plane_part(Rng &r, int size, Stats &st, int nsolves, bool late) {
    PCfg c = random_cfg(r, size); PW w = make_world(r, c); Trace t; t.push_back(Op("psize", {w.poses, w.nplanes})); for (int k = 0; k < w.nplanes; ++k) t.push_back(Op("addp", {k})); auto v = points(r, w, r.i(3), st);
    size_t cut = late ? v.size() / 2 : v.size(); size_t n = 0; for (auto &o : v) { t.push_back(o); if (++n == cut && late) t.push_back(Op("psolve", {r.i(1, 8), r.i(2)})); }
    for (int k = 0; k < nsolves; ++k) { if (r.p(0.4)) t.push_back(setlast_op(rxi(r, 0.6, 1))); t.push_back(Op("psolve", {r.p(0.7) ? r.i(6, 8) : r.i(1, 5), r.i(2)})); if (r.p(0.5)) t.push_back(Op("pevalp")); if (r.p(0.2)) t.push_back(Op("pprint", {r.i(2)})); if (r.p(0.1)) t.push_back(Op("preset")); }
    for (auto &o : t) if (o.k == "psolve" && o.at(0) == 8) o.i[0] = LM_E; for (auto &o : t) if (o.k == "psolve" && o.at(0) > LM_E) o.i[0] = LM_S;
    return t;
}
static bool is_plane_op(const Op &o) { static const std::set<std::string> s = {"psize", "mkp", "addp", "pt", "ppt", "badpt", "setlast", "preset", "clr", "prst", "psolve", "peval", "pevalp", "pprint", "inc"}; return s.count(o.k) > 0; }
// ------------------------------------------------------------------ C11
static Op clk_op(Rng &r, i64 &n) { ++n; i64 far = (i64)std::pow(10.0, r.u(0, 18)); return Op("jump", {r.p(0.5) ? 0 : (i64)std::pow(10.0, r.u(0, 13)), r.p(0.5) ? far : -far}); }
static Trace gen11(Rng &r, int size, Stats &st) {
    Trace t, g, p; i64 n = 0; t.push_back(Op("cfg", {r.i(2), (i64)std::pow(10.0, r.u(0, 15)), (i64)(r.next() >> 2), r.p(0.3) ? 0 : (i64)std::pow(10.0, r.u(0, 6)), r.p(0.2) ? 0 : r.i(1, 50)}));
    if (r.p(0.6)) { Cfg c = world::random_cfg(r, size ? 1 : 0); c.init = r.p(0.3) ? 0.5 : 0.05; GenOpt o; o.p_solve = 0.12; o.p_query = 0.05; o.p_set = 0.03; o.gkind = (int)t[0].at(0); g = gen_session(r, c, o, st); }
    if (r.p(0.7)) p = plane_part(r, size, st, r.i(1, 4), r.p(0.3));
    size_t a = 0, b = 0; while (a < g.size() || b < p.size()) { if (r.p(0.08)) t.push_back(clk_op(r, n)); if ((r.p(0.5) && a < g.size()) || b >= p.size()) { if (g[a].k != "cfg") { if (g[a].k == "solve" && r.p(0.3)) t.push_back(Op("mid", {(i64)std::pow(10.0, r.u(2, 5)), r.p(0.5) ? (i64)std::pow(10.0, r.u(0, 12)) : 0, (r.p(0.5) ? 1 : -1) * (i64)std::pow(10.0, r.u(0, 18))})); t.push_back(g[a]); } ++a; }
        else { if (p[b].k == "psolve" && r.p(0.6)) t.push_back(Op("mid", {(i64)std::pow(10.0, r.u(2, 6)), r.p(0.6) ? (i64)std::pow(10.0, r.u(3, 13)) : 0, (r.p(0.5) ? 1 : -1) * (i64)std::pow(10.0, r.u(0, 18))})); t.push_back(p[b]); ++b; } }
    int m = r.p(0.6) ? r.i(1, 25) : 0; for (int k = 0; k < m; ++k) { if (r.p(0.5)) t.push_back(clk_op(r, n)); int q = r.i(10); t.push_back(Op(q < 3 ? "tstart" : q < 7 ? "tstop" : q < 8 ? "treset" : q < 9 ? "tprint" : "ttotal", {r.i(4)})); }
    if (m) t.push_back(Op("ttotal")); st.add("clock_jumps", n); return t;
}
static i64 ev_s, ev_w; static bool ev_fired; static void ev_fn() { rt::clock_jump(ev_s, ev_w); ev_fired = true; }
static void run11(const Trace &t, Ctx &cx) {
    std::vector<std::vector<double>> log[2]; Stats quiet; Op cfg("cfg"); if (!t.empty()) cfg = t[0];
    for (int pass = 0; pass < 2; ++pass) {
        Ctx cq(quiet); Ctx &c = pass ? cx : cq; Session a(c, cfg_kind(t)); PSess p(c); mrob::TimeProfiling *tp; { rt::Sut s; tp = new mrob::TimeProfiling(); } std::unique_ptr<mrob::TimeProfiling> own(tp);
        if (pass) rt::clock_set(cfg.at(1, 1), cfg.at(2), cfg.at(3), cfg.at(4)); else rt::clock_set(1000000000, 1500000000000000000LL, 0, 0);
        i64 t1 = 0; double sum = 0; const Op *mid = nullptr; i64 last = -1, lastlo = -1, lasthi = -1; double sq = 0; i64 nsec = 0;
        for (auto &o : t) {
            std::vector<double> l;
            if (o.k == "cfg") continue;
            if (o.k == "jump") { if (pass) { rt::clock_jump(std::max<i64>(0, o.at(0)), o.at(1)); cx.st.add("clock_jump_applied"); } continue; }
            if (o.k == "mid") { mid = &o; continue; }
            if (o.k[0] == 't' && o.k != "t") {      // the time-profiling helper, exact: no ticks and no running time while it is used
                i64 tick = rt::clk.tick_ns, stp = rt::clk.step_ns; i64 now = rt::steady_now_noread(); if (stp) { rt::clk.steady_ns = now; rt::clk.system_ns += (i64)(rt::steps - rt::clk.step_base) * stp; } rt::clk.tick_ns = 0; rt::clk.step_ns = 0; std::string key(1 + o.at(0), 'k');
                if (o.k == "tstart") { rt::Sut s; tp->start(); t1 = now; nsec |= 1; } else if (o.k == "treset") { rt::Sut s; tp->reset(); t1 = now; sum = 0; nsec |= 1; }
                else if (o.k == "tstop" && nsec) { { rt::Sut s; tp->stop(key); } sum += (double)((now - t1) / 1000); sq += (now - t1); cx.st.add("sections"); } else if (o.k == "tprint") { rt::Sut s; tp->print(); }
                double got; { rt::Sut s; got = tp->total_time(); } if (!(std::fabs(got - sum) <= 1e-9 * sum)) fail("section-time", fmt("%.17g microseconds reported, %.17g elapsed in the measured sections", got, sum));
                rt::clk.tick_ns = tick; rt::clk.step_ns = stp; rt::clk.step_base = rt::steps; continue; }
            bool solve = o.k == "psolve" || o.k == "solve"; if (o.k == "psolve" && !p.nplanes()) continue;
            if (solve && mid && pass) { ev_s = std::max<i64>(0, mid->at(1)); ev_w = mid->at(2); ev_fired = false; rt::event_at = rt::steps + (rt::u64)mid->at(0); rt::event_fn = ev_fn; }
            u64 e0 = 0; if (o.k == "psolve" && pass) { u64 s0 = rt::steps; p.eval(); e0 = rt::steps - s0; if (solve && mid) rt::event_at = rt::steps + (rt::u64)mid->at(0); } else if (o.k == "psolve") p.eval();
            u64 s0 = rt::steps; i64 r0 = (i64)rt::clk.reads; i64 n0 = rt::steady_now_noread();
            if (o.k == "pevalp") { if (!p.nplanes()) continue; auto v = p.evaluate(); if (last >= 0 && pass) { if (!(v[4] >= lastlo / 1000 - 1 && v[4] <= lasthi / 1000 + 1)) fail("reported-time", fmt("%.0f microseconds reported for the last solve, between %lld and %lld elapsed", v[4], (long long)(lastlo / 1000), (long long)(lasthi / 1000))); cx.st.add("times_checked"); } if (v[4] < 0) fail("reported-time", "a negative time is reported"); v[4] = 0; l = v; }
            else if (o.k == "q") { Digest d; run_query(a, o.at(0), d); double x; memcpy(&x, &d.h, 8); l.push_back(x); }
            else if (is_plane_op(o)) l.push_back(p.exec(o)); else if (o.k != "dup" || true) l.push_back(exec(a, o));
            if (solve) {
                u64 s1 = rt::steps; bool in = ev_fired && pass && mid; i64 elapsed = rt::steady_now_noread() - n0; bool fired = in; rt::event_at = ~0ULL; rt::event_fn = nullptr;
                /* the jump may come before the measured section, or after it */ u64 took = s1 - s0; if (o.k == "psolve") { i64 ov = pass ? (i64)(e0 + e0 / 4 + 2000) * rt::clk.step_ns + 4 * rt::clk.tick_ns : 0; bool iter = o.at(0) >= 2 && o.at(0) != CLAMPED; last = iter ? 1 : -1; lasthi = elapsed; lastlo = elapsed - ov; if (fired && ((u64)mid->at(0) < e0 + e0 / 4 + 2000 || (u64)mid->at(0) + 1000 > took)) lastlo -= ev_s; if (lastlo < 0) lastlo = 0; (void)s0; (void)r0; }
                mid = nullptr; ev_fired = false; if (in) cx.st.add("clock_jump_in_solve");
                if (o.k == "psolve" && p.nplanes()) { auto v = p.evaluate(); if (last >= 0 && pass) { if (!(v[4] >= lastlo / 1000 - 1 && v[4] <= lasthi / 1000 + 1)) fail("reported-time", fmt("%.0f microseconds reported for a solve, between %lld and %lld elapsed", v[4], (long long)(lastlo / 1000), (long long)(lasthi / 1000))); cx.st.add("times_checked"); } v[4] = 0; l.insert(l.end(), v.begin(), v.end()); }
            }
            if (p.T) for (auto &x : p.traj()) for (int k = 0; k < 16; ++k) l.push_back(x.data()[k]); if (solve) for (auto &s : a.states()) for (int k = 0; k < s.size(); ++k) l.push_back(s.data()[k]); log[pass].push_back(l);
        }
        if (pass) { a.digest_states(); if (p.T) p.digest(); }
        { rt::Sut s; own.reset(); }
    }
    for (size_t k = 0; k < log[0].size(); ++k) if (k >= log[1].size() || log[0][k].size() != log[1][k].size() || memcmp(log[0][k].data(), log[1][k].data(), 8 * log[0][k].size())) fail("clock-dependent", fmt("result %zu of the session depends on the clock", k));
    rt::clock_set(5000000000LL, 1500000000000000000LL, 1000, 0);
}
static Reg r11({"C11", gen11, run11, 4000, 50000, 9000000000ULL, "FGraph*, Optimizer, PlaneRegistration, Plane, TimeProfiling (real code)", "wall clock jumping forwards and backwards, monotonic clock fast, frozen or stalling, both between calls and in the middle of solves; network faults while building"});
// ------------------------------------------------------------------ C12
struct SceneP { i64 N, P, T; double noise, bias; };
typedef std::shared_ptr<mrob::CreatePoints> ScP;
static ScP make_scene(const SceneP &q) { rt::Sut s; return ScP(new mrob::CreatePoints(q.N, q.P, q.T, q.noise, q.bias)); }
static void put(std::vector<double> &v, const M4 &x) { for (int k = 0; k < 16; ++k) v.push_back(x.data()[k]); }
static std::vector<double> scene_bits(mrob::CreatePoints &s, const SceneP &q) {
    std::vector<double> v; rt::Hold h; { rt::Sut z; auto &g = s.get_ground_truth_trajectory(); auto &pp = s.get_plane_poses(); for (auto &x : g) { rt::NotSut n; put(v, to4(x)); } for (auto &x : pp) { rt::NotSut n; put(v, to4(x)); } for (i64 t = 0; t < q.T; ++t) { auto &c = s.get_point_cloud(t); auto &id = s.get_point_plane_ids(t); for (auto &x : c) { rt::NotSut n; for (int k = 0; k < 3; ++k) v.push_back(x(k)); } for (auto x : id) { rt::NotSut n; v.push_back((double)x); } } }
    return v;
}
static bool lessv(const V3 &a, const V3 &b) { for (int k = 0; k < 3; ++k) if (a(k) != b(k)) return a(k) < b(k); return false; }
static bool same_set(std::vector<V3> a, std::vector<V3> b) { if (a.size() != b.size()) return false; std::sort(a.begin(), a.end(), lessv); std::sort(b.begin(), b.end(), lessv); for (size_t k = 0; k < a.size(); ++k) if (!(a[k] == b[k])) return false; return true; }
template <class C> static std::vector<V3> conv(const C &c) { std::vector<V3> v; for (auto &x : c) v.push_back(V3(x)); return v; }
static void check_scene(mrob::CreatePoints &s, const SceneP &q, Ctx &cx) {
    if ((i64)s.get_number_planes() != q.P || (i64)s.get_number_poses() != q.T) fail("scene-size", fmt("a scene of %lld planes and %lld poses reports %lld and %lld", (long long)q.P, (long long)q.T, (long long)s.get_number_planes(), (long long)s.get_number_poses()));
    auto &g = s.get_ground_truth_trajectory(); auto &pp = s.get_plane_poses(); auto &pl = s.get_all_planes();
    if ((i64)g.size() != q.T || (i64)pp.size() != q.P || (i64)pl.size() != q.P) fail("scene-size", fmt("a scene of %lld planes and %lld poses holds %zu planes, %zu plane poses and %zu poses", (long long)q.P, (long long)q.T, pl.size(), pp.size(), g.size()));
    if (!(to4(g[0]) == M4::Identity())) fail("scene-origin", "the trajectory does not start at the identity");
    M4 last; { rt::Sut z; last = to4(s.get_ground_truth_last_pose()); } if (!bits(last, to4(g.back()))) fail("scene-views", "last pose and trajectory disagree"); V6 xi = ref::logT(last); bool edge = xi.head<3>().norm() > 3.1;
    for (i64 t = 0; t < q.T; ++t) {
        M4 X = to4(g[t]), Y; { rt::Sut z; Y = to4(s.get_ground_truth_pose(t)); } if (!bits(X, Y)) fail("scene-views", fmt("pose %lld and the trajectory disagree", (long long)t)); M3 R = X.topLeftCorner<3, 3>();
        if (!((R.transpose() * R - M3::Identity()).cwiseAbs().maxCoeff() < 1e-9 && R.determinant() > 0)) fail("scene-pose", fmt("pose %lld is not a rigid transformation", (long long)t));
        M4 want = ref::expT(V6(xi * (q.T > 1 ? (double)t / (q.T - 1) : 0))); if (q.T > 1 && !edge && !((X - want).cwiseAbs().maxCoeff() < 1e-10)) fail("scene-trajectory", fmt("pose %lld is %.3g off the constant-velocity trajectory", (long long)t, (X - want).cwiseAbs().maxCoeff()));
        auto &c = s.get_point_cloud(t); auto &id = s.get_point_plane_ids(t); if ((i64)c.size() != q.N || (i64)id.size() != q.N) fail("scene-size", fmt("pose %lld sees %zu points with %zu labels, %lld requested", (long long)t, c.size(), id.size(), (long long)q.N));
        std::vector<std::vector<V3>> by(q.P); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300, zz = 0;
        for (i64 k = 0; k < q.N; ++k) {
            if ((i64)id[k] >= q.P) fail("scene-label", fmt("point %lld is labelled with plane %lld of %lld", (long long)k, (long long)id[k], (long long)q.P)); by[id[k]].push_back(V3(c[k]));
            V3 w = X.topLeftCorner<3, 3>() * V3(c[k]) + X.topRightCorner<3, 1>(); M4 I = ref::invT(to4(pp[id[k]])); V3 l = I.topLeftCorner<3, 3>() * w + I.topRightCorner<3, 1>();
            if (!(std::fabs(l(2)) <= 9 * q.noise + 1e-11)) fail("scene-point", fmt("point %lld of pose %lld is %.3g off plane %lld it is labelled with (noise %.3g)", (long long)k, (long long)t, l(2), (long long)id[k], q.noise));
            x0 = std::min(x0, l(0)); x1 = std::max(x1, l(0)); y0 = std::min(y0, l(1)); y1 = std::max(y1, l(1)); zz += l(2) * l(2);
        }
        if (q.N && !(x1 - x0 <= 2 + 1e-10 && y1 - y0 <= 2 + 1e-10)) fail("scene-patch", fmt("points of pose %lld spread over %.3g x %.3g in their plane, at most 2 x 2 expected", (long long)t, x1 - x0, y1 - y0));
        if (q.N && q.bias == 0 && !(x0 >= -1 - 1e-10 && x1 <= 1 + 1e-10 && y0 >= -1 - 1e-10 && y1 <= 1 + 1e-10)) fail("scene-patch", "without bias a point lies outside its patch");
        if (q.N >= 200 && q.noise > 1e-7) { double m = zz / q.N / (q.noise * q.noise); if (!(m > 0.3 && m < 2.5)) fail("scene-noise", fmt("points are spread %.3g times as much as the requested noise", std::sqrt(m))); cx.st.add("noise_checked"); }
        for (i64 p = 0; p < q.P; ++p) {
            if (!(std::fabs((double)by[p].size() - (double)q.N / q.P) < 1)) fail("scene-label", fmt("plane %lld has %zu of %lld points at pose %lld, %lld planes", (long long)p, by[p].size(), (long long)q.N, (long long)t, (long long)q.P));
            if ((i64)pl[p].first != p) fail("scene-views", "planes are not numbered in order"); auto &pts = pl[p].second->get_points(t); if (!same_set(conv(pts), by[p]) || pl[p].second->get_number_points(t) != by[p].size()) fail("scene-views", fmt("plane %lld holds other points for pose %lld than the cloud labelled with it", (long long)p, (long long)t)); }
    }
    cx.st.add("scenes_checked");
}
static Op clkset(Rng &r) { return Op("clk", {(i64)std::pow(10.0, r.u(0, 17)), r.p(0.1) ? r.i(0, 3) : r.p(0.2) ? -(i64)(r.next() >> 3) : (i64)(r.next() >> 2), r.p(0.6) ? 0 : (i64)std::pow(10.0, r.u(0, 8))}); }
static Trace gen12(Rng &r, int size, Stats &st) {
    Trace t; int n = r.i(1, 3);
    for (int k = 0; k < n; ++k) {
        t.push_back(clkset(r)); bool big = r.p(0.15); t.push_back(Op("scene", {r.p(0.05) ? r.i(0, 2) : big ? r.i(200, r.p(0.1) ? 4000 : 400) : r.i(3, 20 + 20 * size), r.p(0.03) ? r.i(5, 40) : r.i(1, 4 + 3 * size), r.p(0.03) ? r.i(5, 40) : r.i(1, 3 + 2 * size)}, {r.p(0.4) ? 0 : std::pow(10, r.u(-4, 0)), r.p(0.4) ? 0 : r.u(0.01, 2)}));
        int m = r.i(1, 6); for (int j = 0; j < m; ++j) { int q = r.i(9);
            if (q < 2) t.push_back(Op("again", {r.i(4), (i64)std::pow(10.0, r.u(0, 3))})); else if (q < 4) t.push_back(Op("other", {r.p(0.5) ? r.i(1, 50) : (i64)std::pow(10.0, r.u(2, 12)), r.i(2)}));
            else if (q < 6) t.push_back(Op("reg", {r.i(6, 7)})); else if (q == 6) t.push_back(Op("sprint")); else if (q == 7) t.push_back(Op("jump", {(i64)std::pow(10.0, r.u(0, 12)), (r.p(0.5) ? 1 : -1) * (i64)std::pow(10.0, r.u(0, 17))})); else t.push_back(Op("sample", {r.i(2), r.i(1, 20)}, {r.u(0, 1.5), r.u(0, 10), r.u(-1, 1), r.u(-5, 5)})); }
    }
    (void)st; return t;
}
static void run12(const Trace &t, Ctx &cx) {
    ScP sc; SceneP q = {0, 1, 1, 0, 0}; rt::Clock ck = rt::clk; std::vector<double> now; rt::clk.step_ns = 0;
    for (auto &o : t) {
        if (o.k == "clk") { rt::clock_set(o.at(0), o.at(1), o.at(2), 0); continue; } if (o.k == "jump") { rt::clock_jump(o.at(0), o.at(1)); continue; }
        if (o.k == "scene") { if (o.at(0) < 0 || o.at(1) < 1 || o.at(2) < 1) continue; q = {o.at(0), o.at(1), o.at(2), o.fd(0), o.fd(1)}; ck = rt::clk; sc = make_scene(q); now = scene_bits(*sc, q); check_scene(*sc, q, cx); for (double x : now) cx.dg.d(x); continue; }
        if (o.k == "sample") {
            double R = o.fd(0), Tt = o.fd(1), rl = -R, rh = R, tl = -Tt, th = Tt; std::unique_ptr<mrob::SampleUniformSE3> s; rt::Clock c0 = rt::clk; auto mk = [&]() { rt::Sut z; if (o.at(0)) s.reset(new mrob::SampleUniformSE3(rl, rh, tl, th)); else s.reset(new mrob::SampleUniformSE3(R, Tt)); }; if (o.at(0)) { rl = o.fd(2) - 0.1; rh = rl + R * 0.3 + 1e-3; tl = o.fd(3); th = tl + Tt + 1e-3; }
            mk(); std::vector<double> a, b; for (int pass = 0; pass < 2; ++pass) { auto &v = pass ? b : a; if (pass) { s.reset(); rt::clk = c0; mk(); } for (i64 k = 0; k < o.at(1); ++k) { mrob::Mat31 x; M3 Q; M4 P; { rt::Sut z; x = s->samplePosition(); Q = M3(s->sampleOrientation().R()); P = to4(s->samplePose()); } for (int j = 0; j < 3; ++j) { v.push_back(x(j)); if (!(x(j) >= tl - 1e-12 && x(j) <= th + 1e-12)) fail("sample-range", fmt("sampled position %.9g outside [%.9g, %.9g]", x(j), tl, th)); }
                V3 w = ref::logR(Q); double lim = std::max(std::fabs(rl), std::fabs(rh)) * std::sqrt(3.0); if (lim < 3.1) for (int j = 0; j < 3; ++j) if (!(w(j) >= rl - 1e-6 && w(j) <= rh + 1e-6)) fail("sample-range", fmt("sampled rotation component %.9g outside [%.9g, %.9g]", w(j), rl, rh));
                if (lim < 3.1) { V6 xi = ref::logT(P); for (int j = 0; j < 6; ++j) { double lo = j < 3 ? rl : tl, hi = j < 3 ? rh : th; if (!(xi(j) >= lo - 1e-5 && xi(j) <= hi + 1e-5)) fail("sample-range", fmt("sampled pose component %d is %.9g, outside [%.9g, %.9g]", j, xi(j), lo, hi)); } } put(v, P); } }
            if (a.size() != b.size() || memcmp(a.data(), b.data(), 8 * a.size())) fail("sample-repeat", "the same clock reading gives other samples"); cx.st.add("samplers"); continue; }
        if (!sc) continue;
        if (o.k == "again") {       // the same clock reading, whatever happened before or fails meanwhile
            rt::Clock keep = rt::clk; rt::clk = ck; ScP u; if (o.at(0) == 1) rt::sink_mode(rt::SINK_FAIL, 0, false); if (o.at(0) == 2) rt::alloc_reset(0x5A, 0x11);
            if (o.at(0) == 3) { rt::alloc_arm(o.at(1), 0); try { u = make_scene(q); } catch (std::bad_alloc &) { cx.st.add("scene_interrupted"); u.reset(); } rt::alloc_disarm(); if (!u) { rt::clk = ck; u = make_scene(q); } } else u = make_scene(q);
            rt::sink_reset(); if (o.at(0) == 2) rt::alloc_reset(0xA5, 0xDD); auto b = scene_bits(*u, q); if (b.size() != now.size() || memcmp(b.data(), now.data(), 8 * b.size())) fail("scene-repeat", "the same clock reading gives another scene"); check_scene(*u, q, cx); cx.st.add("repeated"); rt::clk = keep; continue; }
        if (o.k == "other") {
            rt::Clock keep = rt::clk; rt::clk = ck; i64 d = std::max<i64>(1, o.at(0)); u64 m = 2147483647ULL; if ((u64)d % m == 0) ++d; rt::clk.system_ns += o.at(1) && rt::clk.system_ns > (i64)1e18 ? -d : d; rt::clk.steady_ns += d; u64 s1 = (u64)(ck.system_ns + ck.tick_ns) % m, s2 = (u64)(rt::clk.system_ns + ck.tick_ns) % m; if (s1 <= 1 && s2 <= 1) { rt::clk = keep; continue; }
            ScP u = make_scene(q); auto b = scene_bits(*u, q); rt::clk = keep; if (q.T < 2 && q.N == 0) continue; if (b.size() == now.size() && !memcmp(b.data(), now.data(), 8 * b.size())) fail("scene-not-fresh", fmt("a clock that reads %lld ns later gives the same scene", (long long)d)); check_scene(*u, q, cx); cx.st.add("fresh"); continue; }
        if (o.k == "sprint") { { rt::Sut s; sc->print(); } auto b = scene_bits(*sc, q); if (memcmp(b.data(), now.data(), 8 * b.size())) fail("scene-print", "printing changed the scene"); continue; }
        if (o.k == "reg") {
            std::unique_ptr<PReg> g; { rt::Sut s; g.reset(new PReg()); sc->create_plane_registration(*g); } if ((i64)g->get_number_planes() != q.P || (i64)g->get_number_poses() != q.T) fail("scene-registration", fmt("registration of a scene of %lld planes and %lld poses has %lld and %lld", (long long)q.P, (long long)q.T, (long long)g->get_number_planes(), (long long)g->get_number_poses()));
            i64 n; { rt::Sut s; n = (i64)g->calculate_total_number_points(); } if (n != q.N * q.T) fail("scene-registration", fmt("registration of the scene counts %lld points of %lld", (long long)n, (long long)(q.N * q.T)));
            std::vector<M4> X; for (i64 k = 0; k < q.T; ++k) { rt::Sut s; X.push_back(to4(g->get_trajectory(k))); } for (auto &x : X) if (!(x == M4::Identity())) fail("scene-registration", "the registration of a new scene does not start at the identity");
            for (i64 k = 0; k < q.T; ++k) { std::vector<mrob::Mat31> c; { rt::Sut s; c = g->get_point_cloud(k); } if (!same_set(conv(c), conv(sc->get_point_cloud(k)))) fail("scene-registration", fmt("registration and scene disagree about the cloud of pose %lld", (long long)k)); }
            auto lmin = [&](const std::vector<M4> &T) { double e = 0; for (i64 p = 0; p < q.P; ++p) { M4 Q = M4::Zero(); for (i64 k = 0; k < q.T; ++k) Q += T[k] * PSess::scatter(conv(sc->get_all_planes()[p].second->get_points(k))) * T[k].transpose(); Eigen::SelfAdjointEigenSolver<M4> es(Q); e += es.eigenvalues()(0); } return e; };
            double e0, e1, w0 = lmin(X), scl = 1e-9; for (i64 k = 0; k < q.T; ++k) for (auto &x : sc->get_point_cloud(k)) scl += 1 + V3(x).squaredNorm(); { rt::Sut s; e0 = g->get_current_error(); } if (!(std::fabs(e0 - w0) <= 1e-9 * scl)) fail("scene-registration", fmt("registration of a new scene has error %.12g, its points give %.12g", e0, w0));
            if (q.T > 1) {
                auto &gt = sc->get_ground_truth_trajectory(); std::vector<M4> G; for (auto &x : gt) G.push_back(to4(x)); double rm0, rm1, want = 0; { rt::Sut s; rm0 = g->calculate_poses_rmse(gt); } bool edge = false; for (i64 k = 0; k < q.T; ++k) { V6 x = ref::logT(ref::invT(G[k])); if (x.head<3>().norm() > 3.1) edge = true; want += x.squaredNorm() / q.T; }
                if (!edge && !(std::fabs(rm0 - std::sqrt(want)) <= 1e-6 * (1 + rm0))) fail("scene-rmse", fmt("distance of a new registration to the ground truth reported %.9g, it is %.9g", rm0, std::sqrt(want)));
                mrob::SE3 L; { rt::Sut s; L = sc->get_ground_truth_last_pose(); g->set_last_pose(L); e1 = g->get_current_error(); rm1 = g->calculate_poses_rmse(gt); }
                if (!edge && !(rm1 <= 1e-6)) fail("scene-rmse", fmt("distance to the ground truth at the ground truth reported %.9g", rm1)); double bound = 0; for (i64 k = 0; k < q.T; ++k) bound += q.N * 81 * q.noise * q.noise;
                if (!edge && !(e1 <= bound + 1e-9 * scl)) fail("scene-truth", fmt("error %.6g at the ground truth of a scene with noise %.3g", e1, q.noise));
                { rt::Sut s; g->reset_solution(); g->solve((mrob::PlaneRegistration::SolveMode)o.at(0)); } double e2; { rt::Sut s; e2 = g->get_current_error(); } if (!(e2 <= e0 + 1e-9 * scl)) fail("scene-solve", fmt("registering the scene raised its error from %.9g to %.9g", e0, e2)); cx.dg.d(e2); }
            auto b = scene_bits(*sc, q); if (memcmp(b.data(), now.data(), 8 * b.size())) fail("scene-views", "registering the scene changed it"); cx.st.add("registered"); continue; }
    }
}
static Reg r12({"C12", gen12, run12, 6000, 100000, 3000000000ULL, "CreatePoints, SampleUniformSE3, SamplePlanarSurface, PlaneRegistration, Plane, Optimizer (real code; the random engines are seeded by the simulated clock)", "clocks reading anything (also before 1970), standing still, ticking or jumping back; failing allocations and failing output while a scene is built; other contents of fresh memory"});
// ------------------------------------------------------------------ C13
static Trace gen13(Rng &r, int size, Stats &st) {
    Trace t, g, p; t.push_back(Op("cfg", {r.p(0.3) ? sut::DENSE : sut::SPARSE})); Cfg c = world::random_cfg(r, size ? 1 : 0); c.robust = r.p(0.3); GenOpt o; o.p_solve = 0.12; o.p_query = 0.2; o.p_set = 0.03; o.gkind = (int)t[0].at(0); g = gen_session(r, c, o, st); if (r.p(0.6)) p = plane_part(r, size, st, r.i(1, 4), r.p(0.3));
    for (auto &x : g) if (x.k == "q" && r.p(0.6)) x.i[0] |= r.p(0.5) ? 256 : 512;
    auto fault = [&]() { t.push_back(Op("sink", {r.i(0, 3), r.p(0.5) ? 0 : (i64)std::pow(10.0, r.u(0, 3))})); };
    size_t a = 0, b = 0; while (a < g.size() || b < p.size()) { if (r.p(0.15)) fault(); if (r.p(0.02)) t.push_back(Op("scene", {r.i(3, 12), r.i(1, 4), r.i(1, 4)}, {0.01, 0.1})); if ((r.p(0.5) && a < g.size()) || b >= p.size()) { if (g[a].k != "cfg") t.push_back(g[a]); ++a; } else t.push_back(p[b++]); }
    return t;
}
static void run13(const Trace &t, Ctx &cx) {
    std::vector<std::vector<double>> log[2]; std::vector<size_t> at; Stats quiet; u64 f0 = rt::sink_faults();
    for (int pass = 0; pass < 2; ++pass) {
        Ctx cq(quiet); Ctx &c = pass ? cx : cq; Session a(c, cfg_kind(t)); PSess p(c); rt::clock_set(5000000000LL, 1500000000000000000LL, 1000, 0); rt::sink_reset();
        for (size_t j = 0; j < t.size(); ++j) {
            const Op &o = t[j]; std::vector<double> l; if (o.k == "cfg") continue;
            if (o.k == "sink") { if (pass) { if (!o.at(0)) rt::sink_reset(); else rt::sink_mode((int)o.at(0), o.at(1), false); cx.st.add(fmt("sink_mode_%lld", (long long)o.at(0))); } continue; }
            try {
                if (o.k == "scene") { SceneP q = {o.at(0), o.at(1), o.at(2), o.fd(0), o.fd(1)}; rt::clk.reads = 0; rt::clock_set(5000000000LL, 1500000000000000000LL + (i64)j, 1000, 0); auto s = make_scene(q); l = scene_bits(*s, q); { rt::Sut z; s->print(); } auto m = scene_bits(*s, q); l.insert(l.end(), m.begin(), m.end()); }
                else if (o.k == "pevalp") { if (!p.nplanes()) continue; l = p.evaluate(); l[4] = 0; } else if (o.k == "q") { Digest d; run_query(a, o.at(0), d); double x; memcpy(&x, &d.h, 8); l.push_back(x); }
                else if (is_plane_op(o)) { if (o.k == "psolve" && !p.nplanes()) continue; l.push_back(p.exec(o)); } else l.push_back(exec(a, o));
            } catch (Violation &) { throw; } catch (std::exception &e) { fail("output-exception", fmt("%s raises an error (%s) when the output device fails", o.k.c_str(), e.what())); }
            for (auto &s : a.states()) for (int k = 0; k < s.size(); ++k) l.push_back(s.data()[k]); if (p.T) { for (auto &x : p.traj()) put(l, x); } if (o.k == "solve") { for (size_t k = 0; k < a.ftags.size(); ++k) l.push_back(a.g->get_fac_chi2(k)); if (a.gkind == sut::SPARSE) l.push_back(a.g->chi2(false)); } if (o.k == "solve" || o.k == "q") l.push_back(a.g->chi2(true)); if (o.k == "psolve") { l.push_back(p.eval()); l.push_back((double)p.count()); }
            log[pass].push_back(l); if (!pass) at.push_back(j);
        }
        rt::sink_reset(); if (pass) { a.digest_states(); if (p.T) p.digest(); }
    }
    cx.st.add("writes_refused", (i64)(rt::sink_faults() - f0));
    for (size_t k = 0; k < log[0].size(); ++k) if (k >= log[1].size() || log[0][k].size() != log[1][k].size() || memcmp(log[0][k].data(), log[1][k].data(), 8 * log[0][k].size())) fail("output-dependent", fmt("operation %zu (%s) gives another result when the output device fails", at[k], t[at[k]].k.c_str()));
}
static Reg r13({"C13", gen13, run13, 2600, 50000, 9000000000ULL, "FGraph*, Optimizer, PlaneRegistration, Plane, CreatePoints, all nodes and factors with their print functions (real code)", "standard output refusing, truncating or throwing on writes after any number of bytes, recovering later; network faults while building"});
// ------------------------------------------------------------------ C17
static bool held(Session &a, const Op &f) { for (int k = 0; k < ref::fnodes((int)f.at(1)); ++k) if (!a.mirror.idx.count(ref::ftag(f, k))) return false; return true; }
static Trace gen17(Rng &r, int size, Stats &st) {
    Trace t, g, p; t.push_back(Op("cfg", {r.p(0.3) ? sut::DENSE : sut::SPARSE, r.i(256), r.i(256)})); Cfg c = world::random_cfg(r, size ? 1 : 0); c.robust = r.p(0.3); c.probes = r.p(0.5); GenOpt o; o.p_solve = 0.1; o.p_query = 0.15; o.p_set = 0.03; o.p_upd = 0.05; o.gkind = (int)t[0].at(0); g = gen_session(r, c, o, st); if (r.p(0.25)) add_eigs(r, g, st); if (r.p(0.6)) p = plane_part(r, size, st, r.i(1, 3), r.p(0.3)); std::vector<i64> nt, ft; double pf = r.u(0, 0.3);
    size_t a = 0, b = 0; while (a < g.size() || b < p.size()) {
        if (r.p(pf)) t.push_back(Op("oom", {(i64)std::pow(10.0, r.u(0, 2)), r.i(2)})); if (r.p(0.01)) t.push_back(Op("throw", {(i64)std::pow(10.0, r.u(0, 2.3))})); if (r.p(0.015)) t.push_back(Op("scene", {r.i(3, 12), r.i(1, 4), r.i(1, 4), r.i(2)}, {0.01, 0.1})); if (r.p(0.02)) t.push_back(Op("cloud", {r.i(3, 9)})); if (r.p(0.02)) t.push_back(Op("loose", {r.i(3)}));
        if ((r.p(0.5) && a < g.size()) || b >= p.size()) { if (g[a].k == "node") nt.push_back(g[a].at(0)); if (g[a].k == "fac" || g[a].k == "eig") ft.push_back(g[a].at(0)); if (g[a].k != "cfg") t.push_back(g[a]); ++a; } else t.push_back(p[b++]); }
    // the end of the objects' lives, in any order
    std::vector<Op> e; for (i64 x : nt) e.push_back(Op("dropn", {x})); for (i64 x : ft) e.push_back(Op("dropf", {x})); e.push_back(Op("dropg")); e.push_back(Op("dropr")); e.push_back(Op("dropp")); e.push_back(Op("drops")); r.shuffle(e); if (r.p(0.5)) std::stable_sort(e.begin(), e.end(), [&](const Op &x, const Op &y) { auto k = [](const Op &q) { return q.k == "dropg" ? 0 : 1; }; return k(x) < k(y); });
    for (auto &x : e) { t.push_back(x); if (r.p(0.3)) t.push_back(Op("readall")); } return t;
}
// the planes of a scene stay usable after the registration that was filled from it is gone
static void orphans(mrob::CreatePoints &s, const SceneP &) { for (auto &x : s.get_all_planes()) { double e, f; { rt::Sut z; e = x.second->estimate_plane(); f = x.second->estimate_plane(); } if (memcmp(&e, &f, 8) || !(e > -1 && e < 1e9)) fail("handle-unreadable", fmt("a scene's plane has error %.17g, then %.17g, after the registration using it was destroyed", e, f)); } }
static void life(const Trace &t, Ctx &cx, bool judge) {
    {
        std::unique_ptr<Session> a(new Session(cx, cfg_kind(t))); std::unique_ptr<PSess> p(new PSess(cx)); std::vector<ScP> scenes; const Op *pend = nullptr; std::set<i64> nodes, facs; std::map<i64, M> last; bool graph = true; bool ended = false;
        auto readall = [&]() {
            if (p && p->read_orphans()) cx.st.add("planes_read_after_registration");
            for (i64 k : nodes) { M x = a->g->node_state(k); if (!graph && last.count(k) && (x.size() != last[k].size() || memcmp(x.data(), last[k].data(), 8 * x.size()))) fail("handle-unreadable", "a node read through the user's handle changed after the graph was destroyed"); for (int j = 0; j < x.size(); ++j) cx.dg.d(x.data()[j]); }
            for (i64 k : facs) { V r = a->g->fac_residual(k); V w = a->mirror.facs.empty() ? r : r; if (!graph) { for (auto &f : a->mirror.facs) if (f.tag == k) { V e = a->mirror.res(f); double m = 0; for (int j = 0; j < e.size(); ++j) m = std::max(m, std::fabs(e(j) - r(j))); if (states_sane(*a, 1e3) && e.cwiseAbs().maxCoeff() < 2.5 && !(m <= 1e-6 * scale_of(*a))) fail("handle-unreadable", "a factor read through the user's handle gives another residual after the graph was destroyed"); } cx.st.add("read_after_graph"); } } };
        for (auto &o : t) {
            if (o.k == "cfg") continue; if (o.k == "oom" || o.k == "throw") { pend = &o; continue; }
            bool drop = o.k.compare(0, 4, "drop") == 0;
            if (drop && !ended) { ended = true; for (auto &x : a->fop) { if (x.second.k == "node" ? !a->g->has_node(x.first) : !a->g->has_fac(x.first)) continue; if (x.second.k == "node") { if (a->mirror.idx.count(x.first)) nodes.insert(x.first); } else facs.insert(x.first); } a->sync(); for (i64 k : nodes) last[k] = a->g->node_state(k); pend = nullptr; }
            if (drop) {
                if (o.k == "dropn") { if (nodes.erase(o.at(0))) a->g->drop_node(o.at(0)); } else if (o.k == "dropf") { if (facs.erase(o.at(0)) || o.at(0) >= 2000000) a->g->drop_fac(o.at(0)); } else if (o.k == "dropg") { a->g->drop_graph(); graph = false; } else if (o.k == "dropr") { if (p) p->drop_reg(); } else if (o.k == "dropp") { if (p) { p.reset(); } } else if (o.k == "drops") scenes.clear(); continue; }
            if (o.k == "readall") { if (ended) readall(); continue; } if (ended) continue;
            if (pend) { if (pend->k == "oom") rt::alloc_arm(pend->at(0), pend->at(1)); else { sut::probe.seen = 0; sut::probe.throw_at = pend->at(0); } }
            bool threw = false; u64 serial = rt::alloc_count();
            try {
                if (o.k == "scene") { SceneP q = {o.at(0), o.at(1), o.at(2), o.fd(0), o.fd(1)}; auto s = make_scene(q); if (o.at(3)) { PReg g; { rt::Sut z; s->create_plane_registration(g); if (q.T > 1) g.solve(mrob::PlaneRegistration::LM_SPHER); } orphans(*s, q); } scenes.push_back(s); }
                else if (o.k == "cloud") { i64 n = std::max<i64>(3, o.at(0)); mrob::MatX X(n, 3), Y(n, 3); for (i64 k = 0; k < n; ++k) { X.row(k) << k, k * k * 0.3, k % 3; Y.row(k) << k + 1, k * k * 0.3, k % 3; } mrob::SE3 T; { rt::Sut z; mrob::PCRegistration::arun(X, Y, T); } }
                else if (o.k == "loose") { if (!a->ntags.empty()) { Op f; bool ok = false; for (auto &x : a->fop) if (x.second.k == "fac" && held(*a, x.second)) { f = x.second; ok = true; break; } bool all = ok; for (int k = 0; ok && k < ref::fnodes((int)f.at(1)); ++k) all = all && a->g->has_node(ref::ftag(f, k)); if (all) { f.i[0] = 1000000 + o.at(0); f.i[5] &= ~(i64)sut::F_INIT; a->g->make_fac_only(f); a->g->drop_fac(f.at(0)); cx.st.add("never_added"); } } }
                else if (o.k == "pevalp") { if (p->nplanes()) p->evaluate(); } else if (is_plane_op(o)) { if (o.k != "psolve" || p->nplanes()) p->exec(o); } else exec(*a, o);
            } catch (Violation &) { throw; } catch (std::exception &) { threw = true; }
            bool fired = rt::alloc_disarm(); sut::probe.throw_at = 0; if (pend && fired) cx.st.add("oom"); if (threw) cx.st.add("calls_failed");
            // Eigen's sparse kernels lose their own temporaries when an allocation fails inside them; that is not this library's memory
            if (threw && fired && !is_plane_op(o) && o.k != "node" && o.k != "fac" && o.k != "eig") rt::heap_exempt(serial);
            pend = nullptr;
            if (threw) { a->sync(); if (p->T) for (auto &x : p->traj()) for (int k = 0; k < 16; ++k) if (!(std::fabs(x.data()[k]) < 1e6)) { p.reset(new PSess(cx)); break; } }
        }
        if (ended) readall();
    }
    if (judge) { i64 n = rt::live_blocks(), b = rt::live_bytes(); if (n) fail("memory-lost", fmt("%lld blocks (%lld bytes) are still allocated after every object is gone", (long long)n, (long long)b)); cx.st.add("lifetimes"); }
    std::string h = rt::heap_check(); if (!h.empty()) fail("heap-corruption", h);
}
static void run17(const Trace &t, Ctx &cx) {
    static bool warm = false; Stats quiet; if (!warm) { Ctx cq(quiet); life(t, cq, false); warm = true; }
    Op cfg = t.empty() ? Op("cfg") : t[0]; rt::alloc_reset((uint8_t)cfg.at(1), (uint8_t)cfg.at(2)); rt::heap_mark(); life(t, cx, true); rt::alloc_reset(0xA5, 0xDD);
}
static Reg r17({"C17", gen17, run17, 7000, 70000, 9000000000ULL, "FGraph*, Optimizer, all nodes and factors, PlaneRegistration, Plane, CreatePoints, PCRegistration (real code; every allocation goes through the simulated allocator with guard bytes, poisoned free blocks and a quarantine)", "allocation failure (one-shot and persistent) and throwing user factors in any call, destruction of graphs, handles, registrations and scenes in any order, other contents of fresh and freed memory"});
// ------------------------------------------------------------------ C10
// Programs 0..n-1 (operation names prefixed "0.", "1.", ...) run alone, each in a pristine process, and interleaved as threads of one pristine process.
static Op tool_op(Rng &r) { int z = r.i(5); if (z == 0) return Op("scene", {r.i(2, 8), r.i(1, 3), r.i(1, 3)}, {0.01, 0.1}); if (z < 3) return Op("est", {r.i(3, 9), r.i(1000)}); if (z == 3) return Op("geo", {r.i(1, 6), r.i(1000)}, {std::pow(10, r.u(-9, 0.5))}); return Op("samp", {r.i(2), r.i(1, 4)}); }
static Trace gen10(Rng &r, int size, Stats &st) {
    Trace t; int n = r.p(0.6) ? 2 : r.i(3, 4); t.push_back(Op("cfg", {n, r.p(0.4) ? 0 : (i64)std::pow(10.0, r.u(2, 4.2))})); std::vector<Trace> prog; bool twins = r.p(0.4), jitter = r.p(0.75), siblings = r.p(0.6); Cfg family = world::random_cfg(r, 0); int fkind = r.i(10); bool tools = r.p(0.15); int tkind = r.i(5);
    for (int k = 0; k < n; ++k) {
        Trace g, p, u; if (twins && k) { prog.push_back(prog[0]); if (jitter) for (auto &o : prog.back()) { if (o.k == "node" && o.at(1) != ref::PL) for (auto &x : o.d) x += 0.02 * r.n(); if (o.k == "cloud") o.i[2] += k; if (o.k == "est" || o.k == "geo") o.i[1] += k; } continue; } int kind = siblings ? fkind : r.i(10);
        if (tools) { int m = r.i(3, 30); for (int j = 0; j < m; ++j) { int z = r.p(0.7) ? tkind : r.i(5); if (z < 3) u.push_back(Op("cloud", {r.i(3, r.p(0.2) ? 40 : 8), z, r.i(1000)})); else u.push_back(tool_op(r)); } prog.push_back(u); continue; }
        if (kind < 7) { Cfg c = siblings ? family : world::random_cfg(r, 0); c.robust = r.p(0.4); c.init = r.p(0.3) ? 0.5 : 0.05; GenOpt o; o.p_solve = 0.1; o.p_query = 0.15; o.p_upd = 0.03; o.p_set = 0.03; o.max_iters = 4; g = gen_session(r, c, o, st); }
        if (kind >= 5) p = plane_part(r, 0, st, r.i(1, 2), r.p(0.3));
        if (g.empty()) u.push_back(Op("cfg", {0})); size_t a = 0, b = 0; while (a < g.size() || b < p.size()) { if (r.p(0.02)) u.push_back(Op("scene", {r.i(2, 8), r.i(1, 3), r.i(1, 3)}, {0.01, 0.1})); if (r.p(0.03)) u.push_back(Op("cloud", {r.i(3, 8), r.i(3), r.i(1000)})); if (r.p(0.03)) u.push_back(tool_op(r)); if (a == 0 && a < g.size()) { u.push_back(g[a++]); continue; } if ((r.p(0.5) && a < g.size()) || b >= p.size()) u.push_back(g[a++]); else u.push_back(p[b++]); }
        if (u.size() > 120) u.resize(120); prog.push_back(u);
    }
    for (int k = 0; k < n; ++k) for (auto o : prog[k]) { o.k = fmt("%d.", k) + o.k; t.push_back(o); }
    int m = (int)std::pow(10.0, r.u(0.5, 3.5)); double lo = r.u(0, 3), hi = lo + r.u(0, 3); double pd = r.p(0.25) ? 0 : r.p(0.3) ? 1 : r.u(); for (int k = 0; k < m; ++k) if (r.p(pd)) t.push_back(Op("sw", {r.p(0.3) ? 0 : (i64)std::pow(10.0, r.u(0, 2.5)), r.i(12), r.i(1 << 20), r.p(0.7) ? -(i64)std::pow(10.0, r.u(lo, hi)) : r.p(0.6) ? 0 : (i64)std::pow(10.0, r.u(0, 2))})); else t.push_back(Op("sw", {(i64)std::pow(10.0, r.u(lo, hi)), r.i(12)}));
    (void)size; return t;
}
struct Prog10 {
    Trace ops; std::vector<u64> log; std::string err; i64 solves = 0;
    void run() {
        Stats quiet; Ctx cq(quiet); Session a(cq, cfg_kind(ops)); PSess p(cq); std::vector<ScP> scenes;
        for (auto &o : ops) {
            Digest d; try {
                if (o.k == "cfg") {}
                else if (o.k == "scene") { SceneP q = {o.at(0), o.at(1), o.at(2), o.fd(0), o.fd(1)}; auto s = make_scene(q); for (double x : scene_bits(*s, q)) d.d(x); { PReg g; { rt::Sut z; s->create_plane_registration(g); if (q.T > 1) d.d(g.solve(mrob::PlaneRegistration::LM_SPHER)); d.d(g.get_current_error()); auto gt = s->get_ground_truth_trajectory(); d.d(g.calculate_poses_rmse(gt)); } } scenes.push_back(s); }
                else if (o.k == "cloud") { i64 n = std::max<i64>(3, o.at(0)); Rng r((u64)o.at(2)); mrob::MatX X(n, 3), Y(n, 3), C(3 * n, 3); mrob::MatX1 w(n); for (i64 k = 0; k < n; ++k) { V3 x(r.n(), r.n(), r.n()); X.row(k) = x.transpose(); Y.row(k) = V3(x(1) + 1 + 0.01 * r.n(), -x(0) + 0.01 * r.n(), x(2)).transpose(); w(k) = r.u(0.5, 2); C.block(3 * k, 0, 3, 3) = M3::Identity() * r.u(0.1, 1); } mrob::SE3 T; int q; { rt::Sut z; q = o.at(1) == 0 ? mrob::PCRegistration::arun(X, Y, T) : o.at(1) == 1 ? mrob::PCRegistration::gicp(X, Y, C, C, T, 1e-4) : mrob::PCRegistration::weighted_point(X, Y, w, T, 1e-4); } d.u(q); M4 m = to4(T); for (int k = 0; k < 16; ++k) d.d(m.data()[k]); }
                else if (o.k == "est") { i64 n = std::max<i64>(3, o.at(0)); Rng r((u64)o.at(1)); mrob::MatX X(n, 3); for (i64 k = 0; k < n; ++k) X.row(k) << r.n(), r.n(), 0.01 * r.n(); Eigen::Vector4d q; V3 nn, c; { rt::Sut z; q = mrob::estimate_plane(X); nn = mrob::estimate_normal(X); c = mrob::estimate_centroid(X); } for (int k = 0; k < 4; ++k) d.d(q(k)); for (int k = 0; k < 3; ++k) { d.d(nn(k)); d.d(c(k)); } }
                else if (o.k == "geo") {
                    Rng r((u64)o.at(1)); mrob::SE3Cov B; mrob::SO3 G; for (i64 k = 0; k < o.at(0); ++k) { mrob::Mat61 x; for (int j = 0; j < 6; ++j) x(j) = o.fd(0) * r.n(); mrob::Mat6 C = mrob::Mat6::Identity() * r.u(0.1, 1); mrob::MatX P(3, 3); for (int j = 0; j < 9; ++j) P.data()[j] = r.n(); mrob::Mat61 l; mrob::Mat6 A; mrob::Mat31 w; mrob::MatX Y; double ds;
                        { rt::Sut z; mrob::SE3 D(x); B = k % 2 ? B.compound_4th_order(D, C) : B.compound_2nd_order(D, C); B.update_lhs(x); l = B.ln_vee(); A = B.inv().adj(); G.update_rhs(mrob::Mat31(x.head(3))); w = G.ln_vee(); Y = B.transform_array(P); ds = B.distance(mrob::SE3(G, mrob::Mat31(x.tail(3)))); if (k % 3 == 2) B.regenerate(); mrob::Mat41 q = mrob::so3_to_quat(G.R()); w += mrob::quat_to_so3(q).col(0); }
                        for (int j = 0; j < 6; ++j) d.d(l(j)); for (int j = 0; j < 36; ++j) { d.d(A.data()[j]); d.d(B.cov().data()[j]); } for (int j = 0; j < 3; ++j) d.d(w(j)); for (int j = 0; j < 9; ++j) d.d(Y.data()[j]); d.d(ds); } }
                else if (o.k == "samp") { for (i64 k = 0; k < o.at(1); ++k) { mrob::SE3 P; mrob::Mat31 x; mrob::SO3 R; { rt::Sut z; mrob::SampleUniformSE3 s(0.5, 2.0); P = s.samplePose(); x = s.samplePosition(); R = s.sampleOrientation(); if (o.at(0)) { mrob::SamplePlanarSurface f(0.1, 0.2); f.sampleBias(); x += f.samplePoint(); } } M4 m = to4(P); for (int j = 0; j < 16; ++j) d.d(m.data()[j]); for (int j = 0; j < 3; ++j) d.d(x(j) + R.R()(j, 0)); } }
                else if (o.k == "pevalp") { if (p.nplanes()) { auto v = p.evaluate(); for (size_t k = 0; k < v.size(); ++k) if (k != 4) d.d(v[k]); } }
                else if (is_plane_op(o)) { if (o.k == "psolve" && !p.nplanes()) continue; d.u(p.exec(o)); if (p.T && (o.k == "psolve" || o.k == "preset")) for (auto &x : p.traj()) for (int k = 0; k < 16; ++k) d.d(x.data()[k]); solves += o.k == "psolve"; }
                else if (o.k == "q") run_query(a, o.at(0) & ~(i64)4, d);
                else if (o.k == "solve") { a.sync(); if (!states_sane(a, 1e6) || !a.mirror.state_dim() || a.mirror.facs.empty()) continue; a.solve((int)o.at(0), (unsigned)o.at(1), o.fd(0), o.fd(1)); a.sync(); ++solves; for (auto &s : a.states()) for (int k = 0; k < s.size(); ++k) d.d(s.data()[k]); }
                else { d.u(exec(a, o)); if (o.k != "node") for (auto &s : a.states()) for (int k = 0; k < s.size(); ++k) d.d(s.data()[k]); }
            } catch (Violation &v) { d.s(v.cls); } catch (std::exception &e) { d.s(e.what()); }
            log.push_back(d.h);
        }
    }
};
struct Out10 { u64 directed; u64 n[8], solves, switches, blocks, sched, steps; u64 log[8][400]; char cls[128], msg[2000]; volatile int ok; };
static std::vector<rt::Prof *> prof10; static Out10 *out10; static void abort10(const char *c, const char *m) { snprintf(out10->cls, 128, "%s", c); snprintf(out10->msg, 2000, "%s", m); }
static void child10(Out10 *o, std::vector<Prog10> &pr, int only, const std::vector<rt::Switch> &plan, u64 rep = 0) {
    memset(o, 0, sizeof *o); pid_t c = fork();
    if (!c) {
        out10 = o; rt::on_abort = abort10; rt::clock_set(5000000000LL, 1500000000000000000LL, 0, 0); rt::step_reset(400000000ULL);
        if (only < 0) rt::threads_run((int)pr.size(), [&](int k) { pr[k].run(); }, plan, std::vector<rt::Prof *>(prof10.begin(), prof10.begin() + pr.size()), rep); else { rt::threads_run(1, [&](int) { rt::prof = prof10[only]; pr[only].run(); rt::prof = nullptr; }, {}); }
        for (size_t k = 0; k < pr.size(); ++k) if (only < 0 || only == (int)k) { o->n[k] = pr[k].log.size(); for (size_t j = 0; j < pr[k].log.size() && j < 400; ++j) o->log[k][j] = pr[k].log[j]; o->solves += pr[k].solves; }
        std::string h = rt::heap_check(); if (!h.empty()) abort10("heap-corruption", h.c_str()); o->directed = rt::directed_hits(); o->switches = rt::thread_switches(); o->blocks = rt::thread_blocks(); o->sched = rt::schedule_hash(); o->steps = rt::steps; o->ok = 1; _exit(0);
    }
    int w = 0; while (waitpid(c, &w, 0) < 0) {}
    if (o->ok && !o->cls[0]) return; if (o->cls[0]) fail(o->cls, o->msg + fmt(" (%s)", only < 0 ? "interleaved" : "alone")); fail("crash", fmt("the process running %s ended with status %d", only < 0 ? "the interleaved threads" : "one thread alone", w));
}
static void run10(const Trace &t, Ctx &cx) {
    std::vector<Prog10> pr; std::vector<rt::Switch> plan; int n = 1; u64 rep = 0; for (auto &o : t) if (o.k == "cfg") { n = (int)std::max<i64>(1, std::min<i64>(6, o.at(0))); if (o.i.size() > 1) rep = (u64)std::max<i64>(0, std::min<i64>(100000, o.at(1))); } pr.resize(n); is_plane_op(Op("x"));
    for (auto &o : t) { if (o.k == "sw") { rt::Switch w{(u64)std::max<i64>(0, o.at(0)), (int)(o.at(1) & 1023)}; if (o.i.size() > 2) { w.loc = o.at(2) & 0xfffff; w.occ = o.at(3); } plan.push_back(w); continue; } if (o.k.size() > 2 && o.k[1] == '.' && o.k[0] - '0' >= 0 && o.k[0] - '0' < n) { Op x = o; x.k = o.k.substr(2); pr[o.k[0] - '0'].ops.push_back(x); } }
    const int PM = PROT_READ | PROT_WRITE, MM = MAP_SHARED | MAP_ANONYMOUS; static Out10 *sh = (Out10 *)mmap(nullptr, 9 * sizeof(Out10), PM, MM, -1, 0); static uint8_t *cm = (uint8_t *)mmap(nullptr, 1 << 16, PM, MM, -1, 0); rt::coverage_share(cm); while (prof10.size() < 8) prof10.push_back((rt::Prof *)mmap(nullptr, sizeof(rt::Prof), PM, MM, -1, 0));
    for (int k = 0; k < n; ++k) { memset(prof10[k], 0, sizeof(rt::Prof)); child10(&sh[1 + k], pr, k, {}); }
    child10(&sh[0], pr, -1, plan, rep); cx.st.add("threads", n); cx.st.add("thread_switches", sh[0].switches); cx.st.add("race_directed_meetings", sh[0].directed); cx.st.add("lock_waits", sh[0].blocks); cx.st.add("solves", sh[0].solves); cx.dg.u(sh[0].sched); rt::path_hash ^= sh[0].sched; rt::steps += sh[0].steps;
    for (int k = 0; k < n; ++k) {
        Out10 &al = sh[1 + k]; if (sh[0].n[k] != al.n[k]) fail("thread-influence", fmt("thread %d finishes %llu operations, alone %llu", k, (unsigned long long)sh[0].n[k], (unsigned long long)al.n[k]));
        for (size_t j = 0; j < sh[0].n[k] && j < 400; ++j) { cx.dg.u(al.log[k][j]); if (sh[0].log[k][j] != al.log[k][j]) fail("thread-influence", fmt("operation %zu of thread %d gives another result when other threads run their own graphs", j, k)); }
    }
}
static Reg r10({"C10", gen10, run10, 3600, 60000, 9000000000ULL, "FGraph, FGraphSolve, FGraphSolveDense, all nodes and factors, PlaneRegistration, Plane, CreatePoints, PCRegistration (real code on real threads; each compared with itself running alone in a pristine process)", "thread switches at any basic block of library code, at any density; race-directed switches (two threads brought into the same basic block); threads blocked on locks or static initialisation; twin programs; lost, delayed and duplicated messages while building"});
