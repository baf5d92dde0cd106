// vsched: a deterministic scheduler + happens-before race detector for unmodified pthread/C++ code.
//
// The code under test is compiled with gcc's -fsanitize=thread instrumentation but linked against this
// runtime (vsched.cpp) instead of libtsan; the pthread entry points it uses are defined by the executable.
// Exactly one thread runs at a time; a scheduling decision is taken before every synchronisation operation
// (mutex, condition variable, rwlock, atomic, futex, create, join, sleep, yield).
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vs {

enum class status { running = 0, done = 1, stuck = 2, aborted = 3, limit = 4, hang = 5, crashed = 6, exception = 7, left = 8 };
const char* to_string(status s);

struct outcome {
    status st;
    std::string events;          // '\n'-separated events recorded with vs::event
    std::string message;         // abort message / race description
    bool race = false;
    std::vector<uint8_t> choices; // decisions taken (for replay)
    uint64_t steps = 0;
};

struct options {
    int bound = 2;               // preemption bound (DFS)
    int spurious = 0;            // spurious wake-ups allowed per execution (each one costs one preemption)
    bool random = false;         // random walk instead of DFS
    bool pct = false;            // PCT priorities (with `random`)
    uint64_t seed = 1;
    uint64_t max_execs = 1000000;
    double max_seconds = 1e9;
    uint64_t step_limit = 20000;
    double exec_timeout = 20.0;
    int per_child = 500;         // executions run in one worker process before a fresh one is forked
};

struct stats {
    uint64_t execs = 0;
    uint64_t steps = 0;
    uint64_t distinct = 0;       // distinct outcomes (status, race flag, events)
    bool exhausted = false;      // DFS finished within the bound
};

// Explore schedules of body(); calls on_outcome for every *distinct* outcome. It may run in a worker process:
// it must only write to stdout.
// on_outcome returns false to stop.
stats explore(const std::function<void()>& body, const options& opt,
              const std::function<bool(const outcome&)>& on_outcome);

// Run once, following `choices` as long as they last (then non-preemptive).
outcome replay(const std::function<void()>& body, const options& opt, const std::vector<uint8_t>& choices);

// Record an event (call from any controlled thread, costs no scheduling point).
void event(const std::string& s);
// A plain scheduling point.
void point();
int self();

}
