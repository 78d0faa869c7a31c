// Controlled scheduler and data-race monitor for the OpenMP code of fimex.
//
// The library is compiled with -fsanitize=thread, but linked to this runtime instead of libtsan/libgomp's threads:
// every memory access, atomic operation, lock, critical section, barrier and parallel region of the library ends up here.
// In a parallel region exactly one thread runs at a time; it gives up control at its lock operations only. That covers
// all behaviours of a program without data races, and data races (by happens-before, on every execution) are reported.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <functional>
#include <string>
#include <vector>

namespace sched {
struct Step
{
    unsigned char enabled; ///< mask of the threads which can continue
    unsigned char chosen;
    unsigned char current; ///< thread reaching the scheduling point
};
struct Trace
{
    std::vector<Step> steps;
    std::string race;      ///< first data race, empty if none
    size_t regions = 0;    ///< parallel regions run by several threads
    size_t accesses = 0;   ///< monitored memory accesses
};
/// a lock whose use neither orders accesses nor needs exploration (logging)
void learnIgnoredLocks(const std::function<void()>& f);
/// run f with the given number of threads following the decisions, then without further preemption
Trace run(int threads, const std::vector<unsigned char>& decisions, const std::function<void()>& f);
int preemptions(const std::vector<Step>& steps, size_t n);
/// all executions of f within the preemption bound (reduced while more than cap executions are expected, at least 1); visit returns false to stop. shard/shards: partition by first deviation
struct Totals
{
    size_t executions = 0, steps = 0, accesses = 0, regions = 0;
    int bound = 0; ///< preemptions allowed
};
Totals exploreAll(int threads, int bound, size_t cap, int shard, int shards, const std::function<void()>& f, const std::function<bool(const Trace&)>& visit);
/// pseudo access to the state of a library which is not instrumented
void libraryAccess(int lib);
} // namespace sched
#endif
