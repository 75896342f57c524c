// Exhaustive explorer: runs a scenario function once for every possible sequence of
// answers to choose(). See mc.cpp for how the tree is split among worker processes.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

namespace mc {

enum Flags {
    LEAKS = 1,    // every execution must free as many heap blocks as it allocates
    ONEPROC = 2,  // do not split among workers
    THOROUGH = 4, // only in the thorough tier
    QUICK = 8,    // only in the quick tier
};

struct Scenario {
    const char* name;
    void (*fn)();
    int flags;
    const char* what;
};

int choose(int n);             // 0 <= result < n; every value is explored
int tier();                    // 0 quick, 1 thorough
inline int pick(int quick, int thorough) { return tier() ? thorough : quick; }
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void step(int n = 1);          // counts transitions (operations, scheduling steps, faults)
void state(uint64_t h);        // records a state by its hash
void nontrivial();             // marks this execution as non-trivial
bool verbose();                // replaying: the trace is being recorded
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void logbytes(const char* what, const void* p, size_t n);
void casef(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // canonical name of the failing case
bool deadlineNear();
uint64_t hashBytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t mix(uint64_t a, uint64_t b) {
    a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
    a ^= a >> 32; a *= 0xd6e8feb86659fd93ull; a ^= a >> 32;
    return a;
}
long liveBlocks();             // live heap blocks (asan flavor only)
void maxCpuPerExecution(double seconds);

// For schedulers that want to abandon an execution (sleep sets, redundant schedules)
void markRedundant();

} // namespace mc

#define MC_LOG(...) do { if (mc::verbose()) mc::logf(__VA_ARGS__); } while (0)
#define MC_CHECK(cond, ...) do { if (!(cond)) mc::fail(__VA_ARGS__); } while (0)
#define MC_SCENARIOS const mc::Scenario mc_scenarios[] 
#define MC_END {nullptr, nullptr, 0, nullptr}
extern const mc::Scenario mc_scenarios[];
