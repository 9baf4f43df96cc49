#include "rt.hpp"
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <new>
#include <chrono>
#include <ctime>
#include <sys/time.h>
#include <unistd.h>
#include <iostream>
#include <streambuf>
#include <stdexcept>
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}
namespace rt {
int sut_depth = 0; bool hold = false;
std::string *heap_fault_p;   // unused; kept out of the hot path
std::string heap_fault;

// block layout: Hdr | payload | 16 byte trailer
struct Hdr {
    u64 magic; size_t size; Hdr *prev, *next; u64 sut; u64 pad;
};
static_assert(sizeof(Hdr) == 48, "hdr");
static const u64 LIVE = 0x51b10c4b51b10c4bULL, DEAD = 0xdeadb10cdeadb10cULL;
static const uint8_t CANARY = 0xC7;
static Hdr head = {LIVE, 0, &head, &head, 0, 0};
static uint8_t fresh_fill_ = 0xA5, freed_fill_ = 0xDD;
static i64 arm_k = 0; static bool arm_sticky = false, arm_fired = false;
static u64 n_alloc = 0; static i64 n_live = 0, b_live = 0;
static u64 epoch = 1;
// quarantine of freed sut blocks (detects writes after free)
static const int QN = 1024; static const size_t QMAX = 1 << 16;
static Hdr *quar[QN]; static int quar_pos = 0;

static void note(const char *s) { if (heap_fault.empty()) { int d = sut_depth; sut_depth = 0; heap_fault = s; sut_depth = d; } }

static bool should_fail() {
    if (!arm_k) return false;
    if (arm_fired) return arm_sticky;
    if (--arm_k == 0) { arm_fired = true; arm_k = 1; return true; }
    return false;
}
static void *do_alloc(size_t n, bool zero) {
    bool sut = sut_depth > 0;
    if (sut) {
        ++n_alloc;
        if (arm_k && !hold && should_fail()) return nullptr;
    }
    if (n > (size_t(1) << 40)) return nullptr;
    Hdr *h = (Hdr *)__real_malloc(sizeof(Hdr) + n + 16);
    if (!h) return nullptr;
    h->magic = LIVE; h->size = n; h->sut = sut ? epoch : 0; h->pad = n_alloc;
    uint8_t *p = (uint8_t *)(h + 1);
    if (n <= (1u << 20) || zero) memset(p, zero ? 0 : fresh_fill_, n);
    memset(p + n, CANARY, 16);
    if (sut) {
        h->prev = &head; h->next = head.next; head.next->prev = h; head.next = h;
        ++n_live; b_live += n;
    } else { h->prev = h->next = nullptr; }
    return p;
}
static bool canary_ok(Hdr *h) {
    uint8_t *p = (uint8_t *)(h + 1) + h->size;
    for (int i = 0; i < 16; ++i) if (p[i] != CANARY) return false;
    return true;
}
static void quar_release(Hdr *h) {
    uint8_t *p = (uint8_t *)(h + 1);
    u64 m = h->pad & 0xff;
    for (size_t i = 0; i < h->size; ++i) if (p[i] != (uint8_t)m) { note("write after free"); break; }
    __real_free(h);
}
static void do_free(void *q) {
    if (!q) return;
    Hdr *h = (Hdr *)q - 1;
    if (h->magic == DEAD) { note("double free"); return; }
    if (h->magic != LIVE) { note("invalid free or header overwritten"); return; }
    if (!canary_ok(h)) note("write past the end of a heap block");
    if (h->next) {
        h->prev->next = h->next; h->next->prev = h->prev;
        if (h->sut == epoch) { --n_live; b_live -= h->size; }
    }
    h->magic = DEAD;
    if (h->sut && h->size <= QMAX) {
        memset(q, freed_fill_, h->size);
        h->pad = freed_fill_;
        Hdr *old = quar[quar_pos]; quar[quar_pos] = h; quar_pos = (quar_pos + 1) % QN;
        if (old) quar_release(old);
    } else { if (h->size <= (1u << 16)) memset(q, freed_fill_, h->size); __real_free(h); }
}
void alloc_reset(uint8_t a, uint8_t b) { fresh_fill_ = a; freed_fill_ = b; arm_k = 0; arm_fired = false; n_alloc = 0; }
void alloc_arm(i64 k, bool sticky) { arm_k = k; arm_sticky = sticky; arm_fired = false; }
bool alloc_disarm() { bool f = arm_fired; arm_k = 0; arm_fired = false; return f; }
u64 alloc_count() { return n_alloc; }
i64 live_blocks() { return n_live; }
i64 live_bytes() { return b_live; }
void heap_exempt(u64 since) { for (Hdr *h = head.next; h != &head; h = h->next) if (h->sut == epoch && h->pad > since) { h->sut = epoch | (1ULL << 63); --n_live; b_live -= h->size; } }
void heap_mark() { ++epoch; n_live = 0; b_live = 0; }
std::string heap_check() {
    for (Hdr *h = head.next; h != &head; h = h->next) {
        if (h->magic != LIVE) return "heap header overwritten";
        if (!canary_ok(h)) return "write past the end of a heap block";
    }
    for (int i = 0; i < QN; ++i) if (quar[i]) {
        Hdr *h = quar[i]; uint8_t *p = (uint8_t *)(h + 1);
        for (size_t k = 0; k < h->size; ++k) if (p[k] != (uint8_t)h->pad) return "write after free";
    }
    return heap_fault;
}

// ---- steps ----
u64 steps = 0, step_limit = ~0ULL, event_at = ~0ULL, path_hash = 0;
void (*event_fn)() = nullptr;
static uint8_t cov0[1 << 16], *cov = cov0;
u64 want_pc = 0, at_pc = 0; bool at_want = false; Prof *prof = nullptr;
u64 coverage_count() { u64 n = 0; for (int k = 0; k < 1 << 16; ++k) n += cov[k]; return n; }
void coverage_share(u8 *m) { cov = m; }
static inline u64 prof_slot(u64 pc) { return (pc * 0x9E3779B97F4A7C15ULL) >> 49; }
static void prof_visit(u64 pc) {
    u64 h = prof_slot(pc); for (int k = 0; k < 64; ++k, h = (h + 1) & 0x7fff) { if (prof->tab[h] == pc) { ++prof->cnt[h]; return; } if (!prof->tab[h]) { if (prof->n >= (1 << 14)) return; prof->tab[h] = pc; prof->cnt[h] = 1; prof->pc[prof->n++] = pc; return; } }
}
u32 prof_count(const Prof &p, u64 pc) { u64 h = prof_slot(pc); for (int k = 0; k < 64; ++k, h = (h + 1) & 0x7fff) { if (p.tab[h] == pc) return p.cnt[h]; if (!p.tab[h]) return 0; } return 0; }
static u64 next_stop = ~0ULL;
void step_reset(u64 lim) { want_pc = 0; steps = 0; path_hash = 0; step_limit = lim; event_at = ~0ULL; event_fn = nullptr; next_stop = lim; }
static __attribute__((noinline)) void step_slow(u64 pc) {
    at_pc = pc; at_want = pc == want_pc;
    if (event_fn && (steps >= event_at || at_want)) { auto f = event_fn; event_at = ~0ULL; event_fn = nullptr; f(); }
    if (steps >= step_limit) abort_run("no-termination", "library call exceeded its step budget of " + std::to_string(step_limit) + " basic blocks");
}
abort_handler on_abort = nullptr;
void abort_run(const char *cls, const std::string &msg) {
    sut_depth = 0;
    if (on_abort) on_abort(cls, msg.c_str());
    fprintf(stderr, "ABORT %s %s\n", cls, msg.c_str());
    _exit(3);
}

// ---- clock ----
Clock clk = {1000000000LL, 1500000000000000000LL, 0, 0, 0, 0};
static i64 step_part() { return clk.step_ns ? (i64)(steps - clk.step_base) * clk.step_ns : 0; }
void clock_set(i64 s, i64 w, i64 t, i64 st) { clk.steady_ns = s; clk.system_ns = w; clk.tick_ns = t; clk.reads = 0; clk.step_ns = st; clk.step_base = steps; }
void clock_jump(i64 a, i64 b) { clk.steady_ns += a; clk.system_ns += b; }
i64 steady_now_noread() { return clk.steady_ns + step_part(); }
static i64 rd(bool steady) {
    ++clk.reads; clk.steady_ns += clk.tick_ns; clk.system_ns += clk.tick_ns;
    return (steady ? clk.steady_ns : clk.system_ns) + step_part();
}

// ---- output ----
struct SimBuf : std::streambuf {
    int mode = SINK_OK; i64 left = -1; u64 bytes = 0, faults = 0; std::string text;
    bool ok(std::streamsize n) {
        if (mode == SINK_OK) return true;
        if (left >= n) { left -= n; return true; }
        return false;
    }
    int fail() { ++faults; if (mode == SINK_THROW) { NotSut g; throw std::runtime_error("simulated output device failure"); } return traits_type::eof(); }
    int_type overflow(int_type c) override {
        if (!ok(1)) return fail();
        ++bytes; NotSut g; if (text.size() < (1 << 20)) text.push_back((char)c); return c == traits_type::eof() ? 0 : c;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override {
        if (!ok(n)) {
            if (mode == SINK_SHORT && left > 0) { std::streamsize m = left; left = 0; bytes += m; ++faults; return m; }
            fail(); return 0;
        }
        bytes += n; NotSut g; if (text.size() < (1 << 20)) text.append(s, n); return n;
    }
    int sync() override { if (mode != SINK_OK && left <= 0) { fail(); return -1; } return 0; }
};
static SimBuf *buf;
void sink_install() { buf = new SimBuf; std::cout.rdbuf(buf); std::cerr.rdbuf(buf); }
void sink_mode(int m, i64 after, bool ex) {
    std::cout.exceptions(std::ios::goodbit); std::cout.clear();
    buf->mode = m; buf->left = after;
    if (ex) std::cout.exceptions(std::ios::badbit | std::ios::failbit);
}
void sink_reset() { std::cout.exceptions(std::ios::goodbit); std::cout.clear(); buf->mode = SINK_OK; buf->left = -1; }
std::string sink_take() { std::string s; s.swap(buf->text); return s; }
u64 sink_bytes() { return buf->bytes; }
u64 sink_faults() { return buf->faults; }
} // namespace rt

using namespace rt;
extern "C" {
void *__wrap_malloc(size_t n) { return do_alloc(n, false); }
void *__wrap_calloc(size_t a, size_t b) { return do_alloc(a * b, true); }
void __wrap_free(void *p) { do_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return do_alloc(n, false);
    if (!n) { do_free(p); return nullptr; }
    void *q = do_alloc(n, false);
    if (!q) return nullptr;
    size_t o = ((Hdr *)p - 1)->size;
    memcpy(q, p, o < n ? o : n);
    do_free(p);
    return q;
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) { if (al > 16) return 22; void *p = do_alloc(n, false); if (!p) return 12; *out = p; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { if (al > 16) return nullptr; return do_alloc(n, false); }

#ifndef ISO
void __sanitizer_cov_trace_pc() {
    u64 pc = (u64)__builtin_return_address(0);
    cov[(pc ^ (pc >> 16)) & 0xffff] = 1;
    if (__builtin_expect(prof != nullptr, 0)) prof_visit(pc);
    path_hash = (path_hash ^ (pc & 0xffffff)) * 0x100000001b3ULL;
    if (++steps >= next_stop || steps >= event_at || pc == want_pc) step_slow(pc);
}
#endif

time_t __wrap_time(time_t *t) { time_t v = (time_t)(rd(false) / 1000000000LL); if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *) { i64 v = rd(false) / 1000; tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
    i64 v = rd(id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE);
    ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
clock_t __wrap_clock() { return (clock_t)(rd(true) / 1000); }
static unsigned rseed = 12345;
int __wrap_rand() { rseed = rseed * 1103515245u + 12345u; return (rseed >> 1) & 0x7fffffff; }
void __wrap_srand(unsigned s) { rseed = s; }
// std::chrono clocks (symbols of libstdc++, wrapped by their mangled names)
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(rd(true))); }
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(rd(false))); }
}
void *operator new(size_t n) { void *p = do_alloc(n, false); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = do_alloc(n, false); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_alloc(n, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_alloc(n, false); }
void operator delete(void *p) noexcept { do_free(p); }
void operator delete[](void *p) noexcept { do_free(p); }
void operator delete(void *p, size_t) noexcept { do_free(p); }
void operator delete[](void *p, size_t) noexcept { do_free(p); }
