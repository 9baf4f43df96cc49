// Driver: seeded search, confirmation by fresh-process replay, minimisation, evidence.
#include "props.hpp"
#include <sys/personality.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <fstream>
#include <iostream>
#include <set>
static std::vector<Prop> &reg() { static std::vector<Prop> r; return r; }
Reg::Reg(const Prop &p) { reg().push_back(p); }
const std::vector<Prop> &all_props() { return reg(); }
const Prop *find_prop(const std::string &id) { for (auto &p : reg()) if (id == p.id) return &p; return nullptr; }

extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
static double wall() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static u64 hash_str(const std::string &s) { u64 h = 0xcbf29ce484222325ULL; for (char c : s) h = (h ^ (uint8_t)c) * 0x100000001b3ULL; return h; }
static u64 run_seed(u64 seed, const std::string &id, u64 k) { Rng r(seed ^ hash_str(id)); r.s += k * 0x632be59bd9b4e019ULL; return r.next(); }

void py_gen_out(u64 seed, int size, FILE *f); void py_ref_out(const Trace &t, FILE *f);      // props_py.cpp
struct Result { bool bad = false; std::string cls, msg; u64 digest = 0, path = 0, steps = 0; };
// ---- one run in this process ----
static char *shm_cls, *shm_msg;                    // where an aborting run leaves its verdict
static void abort_to_shm(const char *c, const char *m) { if (shm_cls) { snprintf(shm_cls, 128, "%s", c); snprintf(shm_msg, 2000, "%s", m); } }
// "next-run" in a trace separates simulated runs that share one process (state the library keeps between sessions)
static Result run_one(const Prop &p, const Trace &t, Stats &st);
static Result run_trace(const Prop &p, const Trace &t, Stats &st) {
    Trace part; Result R; for (auto &o : t) { if (o.k != "next-run") { part.push_back(o); continue; } R = run_one(p, part, st); if (R.bad) return R; part.clear(); }
    return run_one(p, part, st);
}
static Result run_one(const Prop &p, const Trace &t, Stats &st) {
    Result R; Ctx cx(st);
    rt::alloc_reset(0xA5, 0xDD); rt::clock_set(5000000000LL, 1500000000000000000LL, 1000, 0); rt::sink_reset(); rt::sink_take(); double big = 0; for (auto &o : t) big += o.k == "node" || o.k == "fac"; big /= 100; for (auto &o : t) if (o.k == "psize") big = std::max(big, std::cbrt(o.at(0) / 20.0)); rt::step_reset(p.step_limit * (big > 1 ? (u64)std::ceil(big * big * big) : 1));      // a large graph may take longer
    sut::probe = {0, 0, 0, 0, 0};
    try { p.run(t, cx); }
    catch (Violation &v) { R.bad = true; R.cls = v.cls; R.msg = v.msg; }
    catch (std::exception &e) { R.bad = true; R.cls = "unexpected-exception"; R.msg = e.what(); }
    rt::alloc_disarm(); rt::sut_depth = 0; rt::sink_reset();
    if (!R.bad) { std::string h = rt::heap_check(); if (!h.empty()) { R.bad = true; R.cls = "heap-corruption"; R.msg = h; } }
    R.digest = cx.dg.h; R.path = rt::path_hash; R.steps = rt::steps; return R;
}
static std::string trace_text(const Prop &p, const Trace &t, u64 seed, const Result &r) {
    std::string s = fmt("# mrob simulation replay\n# property %s\n# run-seed %llu\n# class %s\n# ", p.id, (unsigned long long)seed, r.cls.c_str());
    for (char c : r.msg) s += c == '\n' ? ' ' : c; s += "\n";
    for (auto &o : t) s += o.str() + "\n"; return s;
}
static bool read_trace(const std::string &f, Trace &t, std::string &cls) {
    std::ifstream in(f); if (!in) return false; std::string l;
    while (std::getline(in, l)) { if (l.compare(0, 8, "# class ") == 0) cls = l.substr(8); if (l.empty() || l[0] == '#') continue; t.push_back(Op::parse(l)); } return true;
}
// run in a forked child; never returns garbage even when the library crashes or hangs
static Result run_forked(const Prop &p, const Trace &t, int secs) {
    static char *sh = (char *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, 8192); Result R; pid_t c = fork();
    if (c == 0) {
        shm_cls = sh + 16; shm_msg = sh + 200; alarm(secs); Stats st; Result r = run_trace(p, t, st);
        memcpy(sh + 4000, &r.digest, 8); memcpy(sh + 4008, &r.path, 8);
        if (r.bad) { abort_to_shm(r.cls.c_str(), r.msg.c_str()); _exit(1); } _exit(0);
    }
    int w = 0; while (waitpid(c, &w, 0) < 0) {}
    memcpy(&R.digest, sh + 4000, 8); memcpy(&R.path, sh + 4008, 8);
    if (WIFSIGNALED(w)) { R.bad = true; R.cls = WTERMSIG(w) == SIGALRM ? "hang" : fmt("crash-signal-%d", WTERMSIG(w)); R.msg = "the process died"; }
    else if (WEXITSTATUS(w)) { R.bad = true; R.cls = sh + 16; R.msg = sh + 200; if (R.cls.empty()) { R.cls = "exit"; R.msg = fmt("exit status %d", WEXITSTATUS(w)); } }
    return R;
}
static Trace minimise(const Prop &p, Trace t, const std::string &cls, double budget, int &tried) {
    double t0 = wall(); auto bad = [&](const Trace &x) { ++tried; Result r = run_forked(p, x, 20); return r.bad && r.cls == cls; };
    for (size_t a = 0; a < t.size() && wall() - t0 < budget;) {      // whole earlier runs first
        size_t e = a; while (e < t.size() && t[e].k != "next-run") ++e; if (e >= t.size()) break;
        Trace x(t.begin(), t.begin() + a); x.insert(x.end(), t.begin() + e + 1, t.end()); if (bad(x)) t = x; else a = e + 1;
    }
    size_t n = 2;
    while (t.size() > 1 && wall() - t0 < budget) {
        size_t len = (t.size() + n - 1) / n; bool ok = false;
        for (size_t a = 0; a < t.size() && wall() - t0 < budget; a += len) {
            Trace x; for (size_t k = 0; k < t.size(); ++k) if (k < a || k >= a + len || t[k].k == "cfg" || t[k].k == "next-run") x.push_back(t[k]);
            if (x.size() < t.size() && bad(x)) { t = x; ok = true; n = std::max<size_t>(2, n - 1); break; }
        }
        if (!ok) { if (len <= 1) break; n = std::min(t.size(), n * 2); }
    }
    return t;
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }

struct Rec { u64 digest, path, steps; uint32_t ops; uint8_t done; };
struct Shared {
    volatile i64 inflight[64]; volatile i64 stop; char cls[64][128]; char msg[64][2048]; volatile u64 covn[64];
};
struct Found { i64 k; std::string cls, msg; };

static int do_check(const Prop &p, const std::string &tier, u64 seed, const std::string &out, const std::string &replay_dir, const std::string &known_file, const char *self) {
    bool thorough = tier == "thorough"; i64 runs = thorough ? p.thorough : p.quick;
    double cap = thorough ? 600 : 45; if (getenv("SIM_CAP")) cap = atof(getenv("SIM_CAP")); if (getenv("SIM_RUNS")) runs = atoll(getenv("SIM_RUNS"));
    int W = 8; double t0 = wall();
    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Rec *rec = (Rec *)mmap(nullptr, sizeof(Rec) * runs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int w = 0; w < W; ++w) sh->inflight[w] = -1;
    std::vector<Found> found; std::map<std::string, i64> counters; double sim_ms = 0; std::vector<pid_t> pid(W, 0); std::vector<int> fd(W, -1); std::vector<std::string> buf(W); std::vector<i64> next(W);
    std::set<std::string> known;
    { std::ifstream in(known_file); std::string l; while (std::getline(in, l)) { std::string pre = std::string("KNOWN-FINDING: property=") + p.id + " class="; if (l.compare(0, pre.size(), pre) == 0) known.insert(l.substr(pre.size(), l.find(' ', pre.size()) - pre.size())); } }
    auto spawn = [&](int w) {
        int pp[2]; if (pipe(pp)) abort();
        pid_t c = fork();
        if (c == 0) {
            close(pp[0]); shm_cls = sh->cls[w]; shm_msg = sh->msg[w]; Stats st;
            for (i64 k = next[w]; k < runs; k += W) {
                if (sh->stop || wall() - t0 > cap) break;
                alarm(60); Rng r(run_seed(seed, p.id, k)); int size = k % 16 == 0 ? 2 : k % 3;
                Trace t = p.gen(r, size, st); sh->inflight[w] = k;
                Result R = run_trace(p, t, st);
                rec[k].digest = R.digest; rec[k].path = R.path; rec[k].steps = R.steps; rec[k].ops = t.size(); rec[k].done = 1; sh->covn[w] = rt::coverage_count();
                if (R.bad) { abort_to_shm(R.cls.c_str(), R.msg.c_str()); dprintf(pp[1], "V %lld %s\t%s\n", (long long)k, R.cls.c_str(), std::string(shm_msg).substr(0, 1500).c_str()); break; }
                sh->inflight[w] = -1;
            }
            sh->inflight[w] = -1; alarm(0);
            std::string s; for (auto &x : st.c) s += fmt("C %s %lld\n", x.first.c_str(), (long long)x.second); s += fmt("S %.17g\nE\n", st.sim_ms);
            size_t o = 0; while (o < s.size()) { ssize_t n = write(pp[1], s.data() + o, s.size() - o); if (n <= 0) break; o += n; }
            _exit(0);
        }
        close(pp[1]); fd[w] = pp[0]; pid[w] = c; buf[w].clear();
    };
    for (int w = 0; w < W; ++w) { next[w] = w; spawn(w); }
    int alive = W; i64 crashes = 0;
    while (alive) {
        std::vector<struct pollfd> pf; std::vector<int> wi; for (int w = 0; w < W; ++w) if (fd[w] >= 0) { pf.push_back({fd[w], POLLIN, 0}); wi.push_back(w); }
        poll(pf.data(), pf.size(), 1000);
        for (size_t j = 0; j < pf.size(); ++j) if (pf[j].revents) {
            int w = wi[j]; char b[65536]; ssize_t n = read(fd[w], b, sizeof b);
            if (n > 0) { buf[w].append(b, n); continue; }
            close(fd[w]); fd[w] = -1; int stt = 0; waitpid(pid[w], &stt, 0);
            std::istringstream is(buf[w]); std::string l; bool clean = false, viol = false;
            while (std::getline(is, l)) {
                if (l[0] == 'V') { std::istringstream q(l.substr(2)); Found f; q >> f.k >> f.cls; auto tab = l.find('\t'); f.msg = tab == std::string::npos ? "" : l.substr(tab + 1); found.push_back(f); viol = true; }
                else if (l[0] == 'C') { std::istringstream q(l.substr(2)); std::string k; i64 v; q >> k >> v; counters[k] += v; }
                else if (l[0] == 'S') sim_ms += atof(l.c_str() + 2); else if (l[0] == 'E') clean = true;
            }
            i64 k = sh->inflight[w];
            if (!clean) { ++crashes; if (k >= 0) { Found f; f.k = k; if (WIFSIGNALED(stt)) { f.cls = WTERMSIG(stt) == SIGALRM ? "hang" : fmt("crash-signal-%d", WTERMSIG(stt)); f.msg = "the process died"; } else { f.cls = sh->cls[w]; f.msg = sh->msg[w]; } found.push_back(f); viol = true; } }
            if (viol && found.back().k >= 0) {
                if (known.count(found.back().cls)) { next[w] = found.back().k + W; if (next[w] < runs && crashes < 200) { spawn(w); continue; } }
                else sh->stop = 1;
            }
            --alive;
        }
    }
    double t1 = wall();
    // ---- confirm, minimise, report ----
    std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.k < b.k; });
    int rc = 0; std::set<std::string> seen; std::string vio_json, notes; i64 unconfirmed = 0; Stats dummy;
    for (auto &f : found) {
        if (seen.count(f.cls)) continue;
        u64 rs = run_seed(seed, p.id, f.k); Rng r(rs); Trace t = p.gen(r, f.k % 16 == 0 ? 2 : f.k % 3, dummy); Result R; R.cls = f.cls; R.msg = f.msg;
        Result c1 = run_forked(p, t, 60);
        for (int back = 1; (!c1.bad || c1.cls != f.cls) && back <= 64; back *= 4) {      // needs what earlier runs of the same process left behind?
            Trace tt; for (int j = back; j >= 1; --j) { i64 k = f.k - (i64)j * W; if (k < 0) continue; Rng q(run_seed(seed, p.id, k)); Trace x = p.gen(q, k % 16 == 0 ? 2 : k % 3, dummy); tt.insert(tt.end(), x.begin(), x.end()); tt.push_back(Op("next-run")); }
            Trace own = t; size_t cut = 0; for (size_t j = 0; j < own.size(); ++j) if (own[j].k == "next-run") cut = j + 1; own.erase(own.begin(), own.begin() + cut); tt.insert(tt.end(), own.begin(), own.end()); Result c3 = run_forked(p, tt, 60); if (c3.bad && c3.cls == f.cls) { t = tt; c1 = c3; } }
        if (!c1.bad || c1.cls != f.cls) { ++unconfirmed; notes += fmt("run %lld reported %s once and did not repeat; ", (long long)f.k, f.cls.c_str()); continue; }
        seen.insert(f.cls); R.msg = c1.msg;
        if (known.count(f.cls)) { std::cout.flush(); dprintf(1, "KNOWN-FINDING: property=%s class=%s %s\n", p.id, f.cls.c_str(), R.msg.c_str()); continue; }
        if (rc) continue;
        int tried = 0; Trace m = getenv("SIM_NOMIN") ? t : minimise(p, t, f.cls, 20, tried); Result c2 = run_forked(p, m, 60); if (!c2.bad || c2.cls != f.cls) { m = t; } else R.msg = c2.msg;
        std::string path = replay_dir + "/" + p.id + "-" + fmt("%llu", (unsigned long long)rs) + ".trace"; mkdir(replay_dir.c_str(), 0755);
        { std::ofstream o(path); o << trace_text(p, m, rs, R); }
        pid_t c = fork(); if (c == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); execl(self, self, "replay", p.id, path.c_str(), (char *)nullptr); _exit(9); }
        int wst = 0; waitpid(c, &wst, 0);
        if (!WIFEXITED(wst) || WEXITSTATUS(wst) != 1) { ++unconfirmed; notes += fmt("run %lld %s did not replay in a fresh process; ", (long long)f.k, f.cls.c_str()); seen.erase(f.cls); continue; }
        dprintf(1, "%s\n  run %lld (seed %llu), %zu operations minimised to %zu in %d tries\n", (f.cls + ": " + R.msg).c_str(), (long long)f.k, (unsigned long long)rs, t.size(), m.size(), tried);
        dprintf(1, "VIOLATION property=%s replay=%s\n", p.id, path.c_str());
        vio_json = fmt("{\"class\":\"%s\",\"message\":\"%s\",\"replay\":\"%s\",\"operations\":%zu}", jesc(f.cls).c_str(), jesc(R.msg.substr(0, 400)).c_str(), jesc(path).c_str(), m.size()); rc = 1;
    }
    // repeatability sample: the same seeds in fresh processes give the same digests
    i64 rep = 0, repok = 0;
    if (!rc) for (i64 k = 0; k < runs && rep < 6; k += std::max<i64>(1, runs / 6)) if (rec[k].done) {
        Rng r(run_seed(seed, p.id, k)); Trace t = p.gen(r, k % 16 == 0 ? 2 : k % 3, dummy); Result R = run_forked(p, t, 60); ++rep; if (R.digest == rec[k].digest) ++repok; }
    i64 done = 0; std::set<u64> dg, pa, nt; u64 steps = 0, ops = 0; for (i64 k = 0; k < runs; ++k) if (rec[k].done) { ++done; steps += rec[k].steps; ops += rec[k].ops; dg.insert(rec[k].digest); pa.insert(rec[k].path); if (rec[k].ops >= 3 && rec[k].steps >= 2000) nt.insert(rec[k].digest); }
    u64 covn = 0; for (int w = 0; w < W; ++w) covn = std::max<u64>(covn, (u64)sh->covn[w]);
    std::string samples; int ns = 0;
    for (i64 k = 0; k < runs && ns < 3; k += std::max<i64>(1, runs / 3)) if (rec[k].done) {
        Rng r(run_seed(seed, p.id, k)); Trace t = p.gen(r, k % 16 == 0 ? 2 : k % 3, dummy); std::string q; size_t shown = std::min<size_t>(t.size(), 14);
        for (size_t j = 0; j < shown; ++j) { std::string l = t[j].k; for (i64 x : t[j].i) l += fmt(" %lld", (long long)x); if (!t[j].d.empty()) { l += " |"; for (size_t m = 0; m < t[j].d.size() && m < 9; ++m) l += fmt(" %.4g", t[j].d[m]); if (t[j].d.size() > 9) l += " ..."; } q += (j ? ", \"" : "\"") + jesc(l) + "\""; }
        samples += fmt("%s{\"run\": %lld, \"run_seed\": \"%llu\", \"operations\": %zu, \"result_digest\": \"%016llx\", \"basic_blocks\": %llu, \"trace_head\": [", ns ? ",\n   " : "", (long long)k, (unsigned long long)run_seed(seed, p.id, k), t.size(), (unsigned long long)rec[k].digest, (unsigned long long)rec[k].steps) + q + "]}"; ++ns; }
    double wt = wall() - t0;
    std::ofstream o(out);
    o << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \"" << tier << "\",\n" << fmt(" \"seed\": %llu,\n \"level\": \"exploration\",\n \"violations\": %d,\n \"wall_s\": %.2f,\n", (unsigned long long)seed, rc, wt);
    o << " \"coverage\": {\n  \"method\": \"deterministic simulation with fault injection: seeded search over histories, schedules and faults\",\n";
    o << fmt("  \"evaluations\": %lld,\n  \"distinct_nontrivial\": %zu,\n", (long long)done, nt.size());
    o << "  \"rule\": \"one evaluation is one simulated run, generated from (VERIF_SEED, property, run number); a run is non-trivial when its history has at least 3 operations and the library executed at least 2000 basic blocks; two runs are distinct when the digests of every result they observed differ; simulated time is network time plus 10 ns per basic block of library code\",\n";
    o << fmt("  \"runs_planned\": %lld,\n  \"search_wall_s\": %.2f,\n  \"runs_per_hour\": %.0f,\n  \"simulated_seconds\": %.3f,\n  \"operations\": %llu,\n  \"library_basic_blocks_executed\": %llu,\n", (long long)runs, t1 - t0, done / std::max(1e-3, t1 - t0) * 3600, (sim_ms + steps * 1e-5) / 1000, (unsigned long long)ops, (unsigned long long)steps);
    o << fmt("  \"distinct_by_result_digest\": %zu,\n  \"distinct_by_basic_block_path\": %zu,\n  \"library_basic_blocks_reached\": %llu,\n", dg.size(), pa.size(), (unsigned long long)covn);
    o << fmt("  \"repeatability\": {\"rerun_in_fresh_process\": %lld, \"identical\": %lld},\n  \"unconfirmed_reports\": %lld,\n", (long long)rep, (long long)repok, (long long)unconfirmed);
    o << "  \"fault_kinds\": \"" << jesc(p.faults) << "\",\n  \"counters\": {"; bool first = true; for (auto &x : counters) { o << (first ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second; first = false; } o << "},\n";
    o << "  \"real_components\": \"" << jesc(p.components) << "\",\n  \"stub_components\": \"network, sensors, robots, allocator, clocks, output device, scheduler (simulated)\",\n";
    o << "  \"samples\": [\n   " << samples << "\n  ]" << (vio_json.empty() ? "" : ",\n  \"violation\": " + vio_json) << ",\n  \"notes\": \"" << jesc(notes) << "\"\n }\n}\n"; o.close();
    dprintf(1, "%s %s: %lld runs, %zu distinct histories, %.1f s%s\n", p.id, tier.c_str(), (long long)done, dg.size(), wall() - t0, rc ? "" : ", held");
    return rc;
}
int main(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } }
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rt::sink_install(); rt::on_abort = abort_to_shm;
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, 4095); self[n > 0 ? n : 0] = 0;
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") { for (auto &p : reg()) dprintf(1, "%s\n", p.id); return 0; }
    // pysessions SEED FIRST LAST STRIDE: histories for the Python driver, each with the answers of the C++ library; pytrace FILE: one given history
    if (cmd == "pysessions" && argc > 5) {
        u64 seed = strtoull(argv[2], nullptr, 10); for (i64 k = atoll(argv[3]); k < atoll(argv[4]); k += atoll(argv[5])) {
            u64 rs = run_seed(seed, "C24", k); char *buf = nullptr; size_t len = 0; FILE *m = open_memstream(&buf, &len); py_gen_out(rs, k % 16 == 0 ? 2 : k % 3, m); fclose(m); Trace t; std::istringstream is(std::string(buf, len)); std::string l; while (std::getline(is, l)) if (!l.empty() && l[0] != '#') t.push_back(Op::parse(l));
            printf("run %lld %llu\n", (long long)k, (unsigned long long)rs); fflush(stdout); std::istringstream i2(std::string(buf, len)); while (std::getline(i2, l)) if (l[0] == '#') printf("%s\n", l.c_str()); rt::clock_set(5000000000LL, 1500000000000000000LL, 1000, 0); py_ref_out(t, stdout); fflush(stdout); }
        return 0; }
    if (cmd == "pygen" && argc > 3) { py_gen_out(strtoull(argv[2], nullptr, 10), atoi(argv[3]), stdout); return 0; }
    if (cmd == "pytrace" && argc > 2) { Trace t; std::string cls; if (!read_trace(argv[2], t, cls)) return 2; printf("run 0 0\n"); py_ref_out(t, stdout); return 0; }
    if (argc < 3) { dprintf(2, "usage: sim list | check ID ... | replay ID FILE | gen ID SEED SIZE | one ID SEED SIZE\n"); return 2; }
    const Prop *p = find_prop(argv[2]); if (!p) { dprintf(2, "unknown property %s\n", argv[2]); return 2; }
    if (cmd == "replay") {
        Trace t; std::string cls; if (!read_trace(argv[3], t, cls)) { dprintf(2, "cannot read %s\n", argv[3]); return 2; }
        Result r = run_forked(*p, t, 60);
        if (!r.bad) { dprintf(1, "no violation\n"); return 0; }
        dprintf(1, "%s: %s\n", r.cls.c_str(), r.msg.c_str()); dprintf(1, "VIOLATION property=%s replay=%s\n", p->id, argv[3]); return cls.empty() || cls == r.cls ? 1 : 4;
    }
    if (cmd == "gen") { Stats st; Rng r(strtoull(argv[3], nullptr, 10)); Trace t = p->gen(r, argc > 4 ? atoi(argv[4]) : 1, st); Result R; R.cls = "-"; dprintf(1, "%s", trace_text(*p, t, strtoull(argv[3], nullptr, 10), R).c_str()); return 0; }
    if (cmd == "run") { Stats st; Trace t; std::string cls; read_trace(argv[3], t, cls); Result r = run_trace(*p, t, st); dprintf(1, "%s %s %016llx\n", r.bad ? r.cls.c_str() : "ok", r.msg.c_str(), (unsigned long long)r.digest); dprintf(1, "%s", getenv("SIM_OUT") ? rt::sink_take().c_str() : ""); for (auto &x : st.c) dprintf(1, " %s=%lld", x.first.c_str(), (long long)x.second); dprintf(1, "\n"); return r.bad; }
    if (cmd == "check") { // check ID tier seed out replaydir known
        if (argc < 8) return 2; return do_check(*p, argv[3], strtoull(argv[4], nullptr, 10), argv[5], argv[6], argv[7], self);
    }
    return 2;
}
