#pragma once
#include "rt.hpp"
#include <functional>
namespace rt {
// plain (loc < 0): after `delta` more basic blocks of library code, thread number `to` (of those that can run) goes on.
// directed: the running thread stops where it enters block `loc` (of the blocks it has still to enter, as some other
// thread has) for the `occ`-th time from now, thread `to` (of those others) runs until it has passed the same block by
// `delta` blocks, then the first goes on; occ < 0: the block is the one the running thread enters -occ blocks from now
struct Switch { u64 delta; int to; i64 loc = -1, occ = 0; };
// alone[k]: the blocks thread k enters when it runs alone (empty: no directed switches)
void threads_run(int n, std::function<void(int)> f, const std::vector<Switch> &plan, const std::vector<Prof *> &alone = std::vector<Prof *>(), u64 repeat = 0 /* the plan starts again until this many switches happened */);
u64 directed_hits();
u64 thread_switches(); u64 thread_blocks(); u64 schedule_hash(); bool threads_on();
}
