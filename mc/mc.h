// Fork-based exhaustive explorer shared by all checks.
//
//  choose(names)  - non-deterministic choice point: the process forks one child per
//                   alternative, so the rest of the body is executed once for every
//                   sequence of choices (stateful DFS over the *real* library state).
//  batch(n, f)    - exhaustive flat enumeration of n cases on a pool of workers, crash
//                   isolated: a worker that dies is replaced and continues with the next case.
//  fail(...)      - records a violation for the current path/case.
//
// Every violation carries the path (choices) that leads to it; `--replay` re-executes
// exactly that path in a fresh process.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

extern bool thorough;            // tier
extern bool replaying;
extern int  seed;

typedef void (*SuiteFn)();
struct SuiteReg { SuiteReg(const char* name, SuiteFn fn, int tier); };
// tier: 0 = both tiers, 1 = thorough only
#define SUITE(name) static void suite_##name(); \
    static mc::SuiteReg reg_##name(#name, suite_##name, 0); static void suite_##name()
#define SUITE_THOROUGH(name) static void suite_##name(); \
    static mc::SuiteReg reg_##name(#name, suite_##name, 1); static void suite_##name()

int  choose(const std::vector<std::string>& names);   // forks; returns index
int  choose(int n, const char* label = "");
[[noreturn]] void leaf();                             // end of one execution (optional; returning from the suite is one too)
void batch(const char* name, uint64_t n, const std::function<void(uint64_t)>& f, uint64_t chunk = 0);
// every sequence of `depth` operations out of names, each executed from the start (stateless search)
void seqs(const char* name, const std::vector<std::string>& names, int depth, const std::function<void(const std::vector<int>&)>& f);
void note(const char* fmt, ...) __attribute__((format(printf,1,2)));   // describe current case (part of the key)
void step(const char* fmt, ...) __attribute__((format(printf,1,2)));   // free text shown in replay, not in the key
bool fail(const char* fmt, ...) __attribute__((format(printf,1,2)));   // record violation (returns false)
int  nfails();                                        // number of fails in the current case
void outcome(uint64_t h);                             // distinct observed outcome
void eval(uint64_t n = 1);                            // count an oracle comparison
void transition(uint64_t n = 1);
bool stopped();
void set_cpu_limit(int seconds);                      // per process/case
const std::string& workdir();                         // scratch directory of this process (empty after a fork)

// hashing
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{ const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
std::string sfmt(const char* fmt, ...) __attribute__((format(printf,1,2)));

} // namespace mc
