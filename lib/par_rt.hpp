// Control of the parallel runtime that replaces libgomp in the schedule checks.
#ifndef VP_PAR_RT_HPP
#define VP_PAR_RT_HPP
#include <cstddef>
#include <cstdint>
#include <functional>

namespace par {
struct Plan {
    int threads = 1;       // 0: one thread per iteration (as many as `many`)
    int many = 1;
    const int *order = nullptr;  // order in which the threads run, repeated after each barrier
    bool full = true;      // tasks: also record accesses of a task to memory it has allocated itself
    long preempt = -1;     // tasks: the first one is interrupted before its n-th synchronisation
};
struct Report {
    uint64_t regions, threads, accesses, pairs, syncs[2];
    bool race, escaped, overflow, crossed;
    char text[400];
};
void begin(const Plan &p, bool record);  // resets the report
const Report &end();
void tasks(const std::function<void()> *f);  // the threads of the plan run one function each
}  // namespace par
#endif
