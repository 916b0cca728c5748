/* mc_rt.hpp -- a controlled scheduler for real multi-threaded code.
 *
 * The code under test is compiled with -fsanitize=thread *instrumentation*, but linked against this runtime instead of
 * ThreadSanitizer's: every synchronisation operation (pthread mutex / condition variable / rwlock / once, futex, thread
 * creation and joining, C++ atomics) is a scheduling point where this runtime decides which thread continues, and every
 * plain memory access of instrumented code is checked against vector clocks, so unsynchronised accesses are found too.
 *
 * rt::explore() enumerates *all* schedules of a closed scenario with at most `bound` deviations (preemptions of a
 * runnable thread, spurious wake-ups, early time-outs), each in a freshly forked process. */
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace mc { class Worker; }

namespace rt {

struct Options {
    unsigned bound = 2;               ///< deviations
    uint64_t max_exec = UINT64_MAX;   ///< safety cap on schedules (a hit cap is reported)
    unsigned horizon = 20000;         ///< scheduling steps per execution
    bool spurious = true;             ///< explore spurious wake-ups
};
struct Stats { uint64_t execs = 0, steps = 0, nodes = 0; unsigned completed_bound = 0; bool capped = false; uint64_t outcomes = 0; };

/** Explores `body` (which runs as thread 0 of each execution).  Reports failures to `W` under key `name: <what>`. */
Stats explore(mc::Worker &W, const std::string &name, const std::function<void()> &body, const Options &opt = {});

/*----- to be used inside `body` and the threads it creates -----*/
void fail(const std::string &what);        ///< property violated; ends this execution
void observe(const std::string &what);     ///< contributes to the outcome of this execution
void log(const std::string &what);         ///< line in the trace shown for a failing execution
uint64_t clock();                          ///< number of scheduling steps taken so far; orders events of an execution
int self();
void point();                              ///< an explicit scheduling point (work done inside a critical section)

}
