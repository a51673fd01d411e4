// Exhaustive exploration of a finite list of cases on the real code.
//
// A Check owns Spaces; a Space is an indexed, finite set of cases (an input, an
// operation sequence, or a scenario whose schedules the case enumerates itself).
// The driver runs every index of every space, in chunks, each chunk in a forked
// child, and restarts after a crash.  Every violation is replayed in a fresh
// child before it is reported.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc
{
enum class Tier
{
    quick,
    thorough
};

inline uint64_t mix(uint64_t h)
{
    h ^= h >> 33;
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    h *= 0xc4ceb9fe1a85ec53ULL;
    h ^= h >> 33;
    return h;
}
inline uint64_t hcomb(uint64_t h, uint64_t v)
{
    return mix(h * 0x9e3779b97f4a7c15ULL + v + 0x632be59bd9b4e019ULL);
}
uint64_t hbytes(const void *p, size_t n, uint64_t seed = 1);
inline uint64_t hstr(const std::string &s, uint64_t seed = 1)
{
    return hbytes(s.data(), s.size(), seed);
}

struct Ctx
{
    std::string scratch; // private directory of the worker (cwd)
    bool replaying = false, failed = false; // failed: this case
    int replay_sub = -1;

    // the property does not hold for the current case; `key` identifies the
    // failing input (stable across runs), `detail` explains it
    void fail(const std::string &key, const std::string &detail);
    void count(const char *name, uint64_t n = 1);
    void nontrivial(uint64_t h); // a distinct non-trivial case
    void outcome(uint64_t h); // a distinct observed outcome
    void state(uint64_t h); // a distinct (model) state visited
    void sample(const std::string &text); // kept if few are there yet
    // still alive (for cases that take long)
    void beat();
    // false once the time budget of the run is spent: a case that enumerates on
    // its own stops, calls capped() and returns
    bool time_left();
    void capped();
};

struct Space
{
    std::string name;
    uint64_t size;
    std::function<void(uint64_t, Ctx &)> run;
    uint64_t chunk = 16; // cases per forked child
    double case_timeout = 60;
};

struct Check
{
    std::string property;
    std::string level; // evidence level
    std::string rule;
    std::vector<std::string> assumptions;
    std::function<std::vector<Space>(Tier)> spaces;
    double quick_budget = 240, thorough_budget = 3000;
};

int main_(int argc, char **argv, const std::vector<Check> &checks);

// n-ary counter helper: decode index into digits of given radices
struct Digits
{
    uint64_t v;
    explicit Digits(uint64_t i)
        : v(i)
    {
    }
    uint64_t operator()(uint64_t radix)
    {
        uint64_t r = v % radix;
        v /= radix;
        return r;
    }
};
} // namespace mc
