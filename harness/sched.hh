// A controlled scheduler. Inside sched::begin .. sched::end one thread of the
// process runs at a time, and at every synchronisation operation (mutexes,
// condition variables, threads, futexes), atomic operation of the library and
// explicit point() the next thread is chosen by a plan: a given prefix of
// choices continued without preemption (for systematic search), a random walk,
// or random priorities with a few change points (PCT).
#pragma once
#include "cases.hh"
#include <cstdint>
#include <functional>
#include <vector>

namespace sched {
struct Choice { uint16_t n, chosen; bool free; }; // free: taking another option is no preemption
struct Plan
{
    enum Mode { Prefix, Walk, Pct } mode = Prefix;
    std::vector<uint16_t> prefix;
    uint64_t seed = 1;
    int switch_pct = 10;   // Walk: chance to leave a thread that could go on
    int depth = 3;         // Pct: number of priority changes
    int length = 400;      // Pct: estimated number of points
    bool memory = false;   // plain accesses of the library to memory off its stack are points, too
    int spurious = 0;      // spurious wakeups allowed
    json to_json() const;
    static Plan from(const json&);
};
void begin(const Plan& p);
void end();                            // (only the main thread is left, or leftovers are abandoned)
bool active();
void point();                          // schedule point
void yielded();                        // ... at which others should go first
void note(const json& e);              // an event of the trace
void watch_stack(void* top);           // from now on nobody else may touch the caller's stack below top
int self();

// Runs body in forked children under many plans. Emits {ev: "trace", status, events,
// plan, count} for every distinct outcome, and {ev: "explored", runs, points}.
void explore(const json& cfg, const std::function<void()>& body);
}
