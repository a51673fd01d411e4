// Controlled scheduler.
//
// The code under test reaches it through shim/tbb (parallel constructs), through
// the interposed pthread_mutex_* functions, and - in the "mem" build flavour -
// through the compiler's memory-access callbacks (mc/memhook.cc).  Workers are
// real threads (so thread_local works), but only the one holding the baton runs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace mc
{
struct Ctx;

// run f(0..n-1) as logically parallel tasks and wait for all of them
void sched_par_range(size_t n, const std::function<void(size_t)> &f);

struct SchedOptions
{
    int workers = 2; // 1: only the order of tasks varies
    int bound = 1; // deviations (preemptions, or out-of-order task picks)
    bool rotate = false; // default policy: hand over to the next worker after each task
    bool order = false; // with workers == 1: the next task is a choice
    bool memory = false; // scheduling points at conflicting memory accesses ("mem" flavour)
    bool sparse = false; // memory: only executions 1, 2, 4, 8, ... of each conflict site
    unsigned order_window = 1000; // order: pick among the first k remaining tasks
    int shard = 0, shards = 1; // this call explores the deviations whose first point is = shard mod shards
    uint64_t max_execs = ~0ull; // cap
    double exec_timeout = 60;
};
struct SchedResult
{
    uint64_t execs = 0, points = 0, max_points = 0, conflict_sites = 0, switches = 0;
    bool capped = false;
    uint64_t first_outcome = 0;
    std::vector<uint64_t> outcomes; // distinct
};
// `body` runs the scenario once and returns (outcome hash, failure or "").  It is
// executed in a forked child per schedule.  Failures are reported through ctx
// with key `key`; if same_outcome, so is any outcome other than the first.
SchedResult explore_schedules(Ctx &ctx, const SchedOptions &o, const std::string &key, bool same_outcome,
    const std::function<std::pair<uint64_t, std::string>()> &body);

// virtual clock: when set, every clock read advances by this many ns
void set_clock_step(int64_t ns);

// while one of these lives, the running worker's memory accesses are no scheduling
// points: for stand-ins of operations that the real library makes atomic
extern int g_atomic;
struct Atomic
{
    Atomic() { g_atomic++; }
    ~Atomic() { g_atomic--; }
};

// called by mc/memhook.cc
extern bool g_mem_active;
void mem_free(uintptr_t addr, size_t size);
void mem_access(uintptr_t addr, unsigned size, bool write, uintptr_t pc);
} // namespace mc
