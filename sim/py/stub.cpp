// Seams of the Python module: clock and allocator under the driver's control, basic-block counter as virtual CPU time.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <chrono>
#include <ctime>
#include <sys/time.h>
#include <unistd.h>
typedef long long i64;
static i64 steady_ns = 5000000000LL, system_ns = 1500000000000000000LL, tick_ns = 1000; static unsigned long long steps = 0, limit = ~0ULL; static i64 left = 0; static int sticky = 0, fired = 0;
static i64 rd(bool st) { steady_ns += tick_ns; system_ns += tick_ns; return st ? steady_ns : system_ns; }
static bool failing() { if (!left) return false; if (fired) return sticky; if (--left == 0) { fired = 1; left = 1; return true; } return false; }
extern "C" {
void *__wrap_malloc(size_t n) { return failing() ? nullptr : malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return failing() ? nullptr : calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return failing() ? nullptr : realloc(p, n); }
void *__wrap__Znwm(size_t n) { if (failing()) throw std::bad_alloc(); return ::operator new(n); }
void *__wrap__Znam(size_t n) { if (failing()) throw std::bad_alloc(); return ::operator new[](n); }
time_t __wrap_time(time_t *t) { time_t v = (time_t)(rd(false) / 1000000000LL); if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *) { i64 v = rd(false) / 1000; tv->tv_sec = v / 1000000; tv->tv_usec = v % 1000000; return 0; }
int __wrap_clock_gettime(clockid_t id, struct timespec *ts) { i64 v = rd(id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE); ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0; }
clock_t __wrap_clock() { return (clock_t)(rd(true) / 1000); }
static unsigned rseed = 12345;
int __wrap_rand() { rseed = rseed * 1103515245u + 12345u; return (rseed >> 1) & 0x7fffffff; }
void __wrap_srand(unsigned s) { rseed = s; }
std::chrono::steady_clock::time_point __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(rd(true))); }
std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return std::chrono::system_clock::time_point(std::chrono::nanoseconds(rd(false))); }
void __sanitizer_cov_trace_pc() { if (++steps >= limit) { static const char m[] = "SIM no-termination\n"; (void)!write(2, m, sizeof m - 1); _exit(77); } }
void sim_clock(i64 a, i64 b, i64 t) { steady_ns = a; system_ns = b; tick_ns = t; rseed = 12345; }
void sim_oom(i64 k, int s) { left = k; sticky = s; fired = 0; }
int sim_disarm() { int f = fired; left = 0; fired = 0; return f; }
unsigned long long sim_steps() { return steps; }
void sim_limit(unsigned long long n) { limit = steps + n; }
}
