// Simulation runtime: every nondeterminism seam of the library under test.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
namespace rt {
typedef uint8_t u8;
typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

// ---- memory seam -----------------------------------------------------------
// All operator new / malloc traffic of the linked binary goes through here.
// A block is charged to the system under test ("sut") when it is allocated
// while sut_depth > 0.
extern int sut_depth;
struct Sut { Sut() { ++sut_depth; } ~Sut() { --sut_depth; } };      // enter library code
struct NotSut { int s; NotSut() : s(sut_depth) { sut_depth = 0; } ~NotSut() { sut_depth = s; } };
void alloc_reset(uint8_t fresh_fill, uint8_t freed_fill);          // new fill patterns, no fault
void alloc_arm(i64 kth, bool sticky);  // fail the kth (1-based) sut allocation from now (sticky: and all later)
extern bool hold;                      // true: faults are suspended (the simulator is reading results)
struct Hold { bool o; Hold() : o(hold) { hold = true; } ~Hold() { hold = o; } };
bool alloc_disarm();                   // returns whether the fault fired
u64 alloc_count();                     // sut allocations since alloc_reset
i64 live_blocks();                     // live sut blocks
i64 live_bytes();
void heap_exempt(u64 since);             // drop live blocks allocated after call number `since` from leak accounting
void heap_mark();                      // forget currently live blocks in leak accounting (fresh epoch)
// "" when all canaries are fine, else a description
std::string heap_check();
extern std::string heap_fault;         // set on double free / bad free / overflow found at free

// ---- step seam (virtual CPU) -----------------------------------------------
extern u64 steps;                      // basic blocks executed inside the library
extern u64 step_limit;                 // hard budget -> run aborted as "no-termination"
extern u64 event_at;                   // call event_fn when steps reaches this value
extern void (*event_fn)();
extern u64 path_hash;
u64 coverage_count();
void coverage_share(u8 *map);             // from now on coverage is recorded in this (shared) map of 65536 bytes
// basic blocks as scheduling points: `want_pc` makes event_fn run when that block is entered; `prof` records the blocks entered
struct Prof { u64 n; u64 pc[1 << 14]; u64 tab[1 << 15]; u32 cnt[1 << 15]; };
u32 prof_count(const Prof &p, u64 pc);   // how often block pc was entered
extern u64 want_pc, at_pc; extern bool at_want; extern Prof *prof;
void step_reset(u64 limit);

// ---- clock seam ------------------------------------------------------------
struct Clock {
    i64 steady_ns, system_ns;
    i64 tick_ns;                       // both clocks advance by this on every reading
    u64 reads;
    i64 step_ns;                       // virtual ns per basic block (0: frozen between events)
    u64 step_base;
};
extern Clock clk;
void clock_set(i64 steady_ns, i64 system_ns, i64 tick_ns, i64 step_ns);
void clock_jump(i64 d_steady, i64 d_system);
i64 steady_now_noread();

// ---- output seam -----------------------------------------------------------
enum SinkMode { SINK_OK = 0, SINK_FAIL = 1, SINK_SHORT = 2, SINK_THROW = 3 };
void sink_install();                                // replace cout/cerr's buffer
void sink_mode(int mode, i64 after_bytes, bool stream_exceptions);
void sink_reset();                                  // healthy, cleared state
std::string sink_take();
u64 sink_bytes();
u64 sink_faults();

// ---- threads (isolation property) ------------------------------------------
// implemented in rt_threads.cpp

[[noreturn]] void abort_run(const char *cls, const std::string &msg);   // ends this process with a recorded violation
typedef void (*abort_handler)(const char *cls, const char *msg);
extern abort_handler on_abort;
}
