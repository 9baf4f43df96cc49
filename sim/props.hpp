#pragma once
#include "session.hpp"
#include "rt.hpp"
struct Prop {
    const char *id;
    Trace (*gen)(Rng &r, int size, Stats &st);     // one simulated history
    void (*run)(const Trace &t, Ctx &cx);          // executes and judges it (throws Violation)
    int quick, thorough;                           // number of runs
    u64 step_limit;                                // basic blocks per run before "no-termination"
    const char *components;                        // which real components run
    const char *faults;                            // fault kinds this check injects (for the evidence)
};
const std::vector<Prop> &all_props();
const Prop *find_prop(const std::string &id);
struct Reg { Reg(const Prop &p); };
