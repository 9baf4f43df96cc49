// Simulated thread scheduler: real threads, one runs at a time, every switch is decided by the simulator at a basic
// block of the library (or where a thread would block on a lock).
#include "rt.hpp"
#include "rt_threads.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <cstdlib>
#include <map>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
}
namespace rt {
static const int MAXT = 8;
static int nthr = 0, cur = -1; static bool fin[MAXT]; static sem_t sem[MAXT], done_sem; static int saved_depth[MAXT]; static bool saved_hold[MAXT];
static std::vector<Switch> plan; static size_t pos = 0; static u64 repeat = 0, n_switch = 0, n_block = 0, idle = 0; static u64 sched_hash = 0;
static std::function<void(int)> *body = nullptr;
u64 thread_switches() { return n_switch; } u64 thread_blocks() { return n_block; } u64 schedule_hash() { return sched_hash; }
bool threads_on() { return cur >= 0; }
static std::vector<u64> locs; static std::vector<Prof *> alone, seen; static int stage = 0, first = -1, partner = -1; static i64 visits = 0; static u64 n_dir = 0;
u64 directed_hits() { return n_dir; }
static void arm();
static int pick(int want) { int live[MAXT], n = 0; for (int k = 0; k < nthr; ++k) if (!fin[k] && k != cur) live[n++] = k; return n ? live[want % n] : -1; }
static i64 ahead(int th, u64 pc) { return (i64)prof_count(*alone[th], pc) - (i64)prof_count(*seen[th], pc); }
static void hand_over(int to) {
    int me = cur; saved_depth[me] = sut_depth; saved_hold[me] = hold; sut_depth = saved_depth[to]; hold = saved_hold[to]; cur = to; if (!seen.empty()) prof = seen[to]; ++n_switch; sched_hash = (sched_hash ^ (steps * 8 + to)) * 0x100000001b3ULL; arm(); sem_post(&sem[to]);
    if (!fin[me]) while (sem_wait(&sem[me])) {}
}
static void next() { stage = 0; visits = 0; want_pc = 0; if (++pos >= plan.size() && n_switch < repeat) pos = 0; }
static void forced() { if (stage) next(); }          // a switch the plan did not ask for
static void preempt() {
    if (cur < 0) return; bool hit = at_want;
    if (pos >= plan.size()) { arm(); return; }
    if (sut_depth <= 0 || hold) { event_at = steps + 1; event_fn = preempt; return; }
    const Switch &w = plan[pos];
    if (w.loc < 0 || locs.empty()) { int want = w.to; next(); int to = pick(want); if (to < 0) { arm(); return; } hand_over(to); return; }
    if (stage == 0 && w.occ < 0) {
        int o[MAXT], n = 0; for (int k = 0; k < nthr; ++k) if (k != cur && !fin[k] && ahead(k, at_pc) > 0) o[n++] = k;
        if (!n) { if (++visits > 64) { next(); arm(); return; } event_fn = preempt; event_at = steps + 1; return; }
        want_pc = at_pc; first = cur; stage = 1; hand_over(o[w.to % n]); return;
    }
    if (stage == 0) {
        if (hit && visits++ < w.occ && ahead(cur, want_pc) > 0 && ahead(partner, want_pc) > 0) { event_fn = preempt; return; }
        if (fin[partner]) { next(); arm(); return; } first = cur; stage = 1; hand_over(partner); return;
    }
    if (stage == 1) { ++n_dir; if (w.delta) { stage = 2; want_pc = 0; event_fn = preempt; event_at = steps + w.delta; return; } }
    int to = first; next(); if (fin[to] || to == cur) { arm(); return; } hand_over(to);
}
static void arm() {
    if (stage != 1) want_pc = 0; at_want = false; event_at = ~0ULL; event_fn = nullptr;
    for (size_t tries = 0; tries < 1000; ++tries) {
        if (pos >= plan.size()) return;
        const Switch &w = plan[pos]; if (w.loc < 0 || locs.empty()) { event_fn = preempt; event_at = steps + w.delta + 1; return; }
        if (stage == 1) { event_fn = preempt; return; }
        if (w.occ < 0) { event_fn = preempt; event_at = steps - w.occ; return; }
        static std::vector<u64> can; can.clear(); for (u64 p : locs) if (ahead(cur, p) > 0) for (int k = 0; k < nthr; ++k) if (k != cur && !fin[k] && ahead(k, p) > 0) { can.push_back(p); break; }
        if (can.empty()) { next(); continue; }
        want_pc = can[(u64)w.loc * can.size() >> 20]; int o[MAXT], n = 0; for (int k = 0; k < nthr; ++k) if (k != cur && !fin[k] && ahead(k, want_pc) > 0) o[n++] = k; partner = o[w.to % n]; event_fn = preempt; return;
    }
}
// the running thread cannot go on: let another one run
static void blocked() {
    ++n_block; if (++idle > 100000) abort_run("deadlock", "every simulated thread waits for a lock"); int to = pick((int)(n_block % 7)); if (to < 0) abort_run("deadlock", "a lock is held by a thread that has ended"); forced(); hand_over(to);
}
static void *entry(void *a) {
    int me = (int)(intptr_t)a; while (sem_wait(&sem[me])) {} (*body)(me);
    fin[me] = true; sut_depth = 0; int to = pick(0); if (to < 0) { cur = -1; event_fn = nullptr; event_at = ~0ULL; want_pc = 0; prof = nullptr; sem_post(&done_sem); } else { forced(); hand_over(to); } return nullptr;
}
void threads_run(int n, std::function<void(int)> f, const std::vector<Switch> &p, const std::vector<Prof *> &al, u64 rep) {
    nthr = n; plan = p; repeat = rep; alone = al; seen.clear(); locs.clear(); if (!al.empty()) { std::map<u64, int> by; for (auto *a : al) for (u64 j = 0; j < a->n; ++j) ++by[a->pc[j]]; for (auto &x : by) if (x.second > 1) locs.push_back(x.first); for (int k = 0; k < n; ++k) seen.push_back((Prof *)calloc(1, sizeof(Prof))); prof = seen[0]; } stage = 0; visits = 0; n_dir = 0; pos = 0; n_switch = n_block = idle = 0; sched_hash = 0; body = &f; sem_init(&done_sem, 0, 0); pthread_t th[MAXT];
    for (int k = 0; k < n; ++k) { fin[k] = false; saved_depth[k] = 0; saved_hold[k] = false; sem_init(&sem[k], 0, 0); pthread_create(&th[k], nullptr, entry, (void *)(intptr_t)k); }
    cur = 0; arm(); sem_post(&sem[0]); while (sem_wait(&done_sem)) {} for (int k = 0; k < n; ++k) pthread_join(th[k], nullptr); prof = nullptr;
}
}
using namespace rt;
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!threads_on()) return __real_pthread_mutex_lock(m); int r; while ((r = pthread_mutex_trylock(m)) == 16 /* EBUSY */) blocked(); idle = 0; return r; }
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) { if (!threads_on()) return __real_pthread_once(o, f); volatile int *s = (volatile int *)o; if (*s == 2) return 0; while (*s == 77) blocked(); if (*s == 2) return 0; *s = 77; try { f(); } catch (...) { *s = 0; throw; } *s = 2; idle = 0; return 0; }
int __wrap___cxa_guard_acquire(uint64_t *g) { uint8_t *b = (uint8_t *)g; if (!threads_on()) return __real___cxa_guard_acquire(g); while (b[2]) blocked(); if (b[0]) return 0; b[2] = 1; idle = 0; return 1; }
void __wrap___cxa_guard_release(uint64_t *g) { uint8_t *b = (uint8_t *)g; if (b[2]) { b[2] = 0; b[0] = 1; return; } __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(uint64_t *g) { uint8_t *b = (uint8_t *)g; if (b[2]) { b[2] = 0; return; } __real___cxa_guard_abort(g); }
}
