// Stateless explicit explorer for sequential code: a scenario is a function that calls choose(n);
// the explorer runs it once for every possible sequence of answers (depth first, in parallel
// processes) and checks whatever the scenario checks on every one of them.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>

namespace mc
{
    struct Scenario
    {
        char const* name;
        void (*fn)();
        int tiers = 3; // 1: quick, 2: thorough, 3: both
        int kinds = 3; // 1: sanitizer builds, 2: plain builds, 3: both
        bool isolated = false; // every execution in a process of its own, where nothing ran before
    };

    // --- inside a scenario ---
    int choose(int n);                  // nondeterministic choice in [0, n)
    inline bool flip() { return choose(2) == 1; }
    [[noreturn]] void fail(char const* fmt, ...) __attribute__((format(printf, 1, 2)));
    void state(uint64_t hash);          // a state of the reference model was reached
    void outcome(uint64_t hash);        // a complete observation of one execution
    void digest(std::string const& value); // what this execution observed; bin/check compares it across builds
    void transition(uint64_t n = 1);    // n steps were taken by model and implementation
    bool probe(void (*fn)(), std::string* how = nullptr); // runs fn in a process of its own; false when it fails or crashes
    void knownFinding(char const* key); // a defect listed in KNOWN_FINDINGS.txt under this key showed itself
    void validated(uint64_t n = 1);     // n extra complete comparisons inside one execution (loops)

    extern bool tracing;                // true while replaying: write the readable trace
    void logf(char const* fmt, ...) __attribute__((format(printf, 1, 2)));

    bool thorough();
    bool asan();
    extern bool leakCheck;              // scenarios may switch the allocation balance check off
    extern int hangSeconds;

    // --- allocation control ---
    long liveAllocations();
    void failAllocation(long index);    // the index-th allocation from now (0-based) throws; -1: never
    void failAllocation2(long index1, long index2); // two of them, both counted from now
    void failAnywhere(int count);       // up to count allocations from now fail; the explorer tries every choice of them
    bool allocationFailed();            // the armed failure has fired
    long allocationCount();             // allocations since the last arm/reset
    extern void (*onAllocate)(void*, size_t); // called after every allocation, when set
    extern void (*onFree)(void*, size_t);     // called before every deallocation, when set
    struct NoFault { NoFault(); ~NoFault(); long saved; }; // no injected failure and no counting in this scope

    // --- hashing helpers ---
    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return h;
    }
    inline uint64_t hashBytes(void const* p, size_t n, uint64_t h = 0x1234567)
    {
        auto c = static_cast<unsigned char const*>(p);
        for (size_t i = 0; i < n; i++)
            h = (h ^ c[i]) * 0x100000001b3ull;
        return mix(h, n);
    }
    inline uint64_t hashStr(std::string const& s, uint64_t h = 0x1234567) { return hashBytes(s.data(), s.size(), h); }

    std::string show(std::string const& s); // escaped, quoted

    int main(int argc, char** argv, Scenario const* scenarios, size_t count);
}

#define MC_OP(...)                 \
    do                             \
    {                              \
        mc::transition();          \
        if (mc::tracing)           \
            mc::logf(__VA_ARGS__); \
    } while (0)

#define MC_LOG(...)                \
    do                             \
    {                              \
        if (mc::tracing)           \
            mc::logf(__VA_ARGS__); \
    } while (0)

#define MC_CHECK(cond, ...)        \
    do                             \
    {                              \
        if (!(cond))               \
            mc::fail(__VA_ARGS__); \
    } while (0)

#define MC_MAIN(...)                                                                          \
    static mc::Scenario const mcScenarios[] = {__VA_ARGS__};                                  \
    int main(int argc, char** argv)                                                           \
    {                                                                                         \
        return mc::main(argc, argv, mcScenarios, sizeof(mcScenarios) / sizeof(mcScenarios[0])); \
    }
