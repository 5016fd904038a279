// Controlled OpenMP runtime ("shim") used instead of libgomp by the harnesses.
//
// The code under test is compiled with -fopenmp but linked against this runtime.  A team of T threads
// consists of T fibers of which exactly one runs at any time; control is handed over only at
// scheduling points (region start, barrier, critical/atomic/lock, dynamic chunk, single, thread end).
// Which enabled thread continues at a scheduling point is decided either by a fixed policy or by the
// explorer below, which enumerates all choices up to a preemption bound.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct OmpOpts {
    int maxThreads = 4;   // what omp_get_max_threads() says (default team size)
    int deliver = 0;      // >0: the runtime never delivers more than this many threads in a team
    int policy = 0;       // without explorer: 0 = lowest id first, 1 = highest id first
};
extern OmpOpts omp;

struct SchedStats {
    uint64_t regions = 0, switches = 0, barriers = 0, points = 0, locks = 0, maxTeam = 0;
};
extern SchedStats sched;

// Generic choice point, usable for any environment answer.  n alternatives, alternative 0 is the default;
// taking another one costs `cost` units of the deviation budget.
int choose(int n, int cost);

struct ExploreResult {
    uint64_t executions = 0;   // complete executions
    uint64_t choicePoints = 0; // choice points met in all executions
    uint64_t maxDepth = 0;
    bool capped = false;
};
// Runs body() once per choice sequence with at most `bound` deviations.  body() is responsible for
// checking its result; `cap` limits the executions (result.capped says whether it was hit).
ExploreResult explore(int bound, uint64_t cap, const std::function<void()> &body);
extern bool reduceIndependent;     // only together with the race detector, see omp_shim.cpp
std::string currentSchedule();     // choices made so far in the current execution
bool exploring();

// hooks of the happens-before detector (hb.cpp); no-ops unless linked with it
void hbFork(int T);
void hbJoin(int T);
void hbBarrier(int T);
void hbAcquire(const void *lock, int tid);
void hbRelease(const void *lock, int tid);
int  curTid();          // thread number in the current team (0 outside)
int  curTeam();
bool inTeam();
void yieldPoint();      // scheduling point (only does something while exploring)
// fibers for another runtime (pthr.cpp): fiber 0 is the caller, workerHook(id) is the life of a fiber
extern void (*yieldHook)();
extern void (*workerHook)(int);
extern int g_cur;
void fiberEnsure(int n);
void fiberSwitch(int to);

// call when the environment misbehaves (deadlock): reported as violation by the harness
[[noreturn]] void schedFatal(const std::string &msg);
extern std::function<void(const std::string &)> onFatal;
}
