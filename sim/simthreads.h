// Simulated threads: real threads of which exactly one runs at a time, switched where the plan says.
//
// The library is compiled with ThreadSanitizer's instrumentation but linked with the callbacks in
// simthreads.cpp instead of ThreadSanitizer's runtime: every memory access, atomic operation, guard of a
// function-local static, mutex, once flag and condition variable becomes a place where the simulated
// scheduler may switch, and feeds a happens-before check over the simulated execution.
#pragma once
#include "common.h"

namespace sim::thr
{

constexpr int maxThreads = 6;

struct Preempt
{
    int kind = 0; // 0: count every access to shared-capable memory, 1: only statics, atomics and synchronisation
    u64 steps = 0;
    u64 target = 0;
};

struct Result
{
    string failure; // "", "deadlock", "runaway", "data-race", "use-after-free", "double-free"
    string detail;
    u64 switches = 0, contended = 0, steps = 0, staticAccesses = 0;
    u64 interleaving = 0; // hash of the order in which threads came to statics, atomics and synchronisation
};

// Runs the bodies to the end, or until nothing can go on (the threads are then left behind, parked).
Result run(vector<std::function<void()>> const& bodies, vector<Preempt> const& preempts);
// Runs one body in a fresh thread, unscheduled.
void alone(std::function<void()> const& body);

} // namespace sim::thr
