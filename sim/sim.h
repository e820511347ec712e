// Public interface of the deterministic simulator (see DESIGN.md).
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- inputs
// Seeded input generator: inputs are a pure function of the run's seed.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
    uint64_t below(uint64_t n) { return n ? (next() >> 16) % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class C> auto& pick(C& c) { return c[below(std::size(c))]; }
};
Rng& in();                       // the input stream of the current run

// ---------------------------------------------------------------- decisions
enum Kind : uint8_t {
    K_SCHED = 0,   // which thread runs next (0 = keep / lowest)
    K_CHUNK,       // how a parallel algorithm splits its range
    K_TASK,        // which task an idle worker takes
    K_NTHR,        // size of a team
    K_FAULT_IO,    // injected I/O behaviour
    K_FAULT_ALLOC, // failing allocation
    K_FAULT_THREAD,// failing thread creation
    K_FAULT_CLOCK, // clock jump
    K_FAULT_SPUR,  // spurious wakeup
    K_RANDDEV,     // entropy
    K_CRASH,       // process crash point
    K_MISC,
    K_MAX
};
uint32_t decide(Kind k, uint32_t n);                       // uniform in [0,n)
uint32_t decide_p(Kind k, uint32_t n, uint32_t num, uint32_t den); // nonzero with prob num/den

// ---------------------------------------------------------------- simulation section
// run body() as simulated thread 0 with the scheduler, race detector and faults on.
void run(const std::function<void()>& body);
// spawn client threads inside run(); returns when all of them finished.
void clients(const std::vector<std::function<void()>>& bodies);
void yield();                                              // explicit scheduling point
uint64_t steps();                                          // scheduling points passed so far (history time stamps)
int self_id();
bool in_sim();

struct Config {
    int omp_threads = 0;        // 0: chosen by seed
    int pstl_workers = 0;       // 0: chosen by seed
    bool omp_nested = false;    // nested parallel regions get their own team
    bool races = true;          // data race = violation
    bool thread_faults = false; // pthread_create may fail
    uint32_t alloc_fail_at = 0; // fail the n-th allocation of the armed section (0 = never)
    bool alloc_sticky = false;  // ... and all later ones
    uint64_t mem_budget = 512ull << 20;
    uint64_t step_limit = 150000000ull;
    uint64_t access_limit = 300000000ull;
    bool clock_faults = false;
};
Config& cfg();
// A configuration picked by the seed (team sizes, nesting, preemption strategy).
void randomize_config();
void serial_config();                                      // everything on one thread: the reference execution

struct AllocGuard { AllocGuard(uint32_t nth, bool sticky = false); ~AllocGuard(); };
uint64_t armed_allocs();                                   // allocations seen since last arm
bool alloc_fault_fired();
uint64_t live_bytes();                                     // live heap bytes (leak checks)
int64_t live_blocks();

// ---------------------------------------------------------------- verdicts
[[noreturn]] void violation(const std::string& msg);
void check(bool ok, const std::string& msg);
void note(const std::string& s);                           // appended to the trace
void digest(const void* p, size_t n);                      // observable output
void digest_u64(uint64_t v);
uint64_t digest_value();
void fault(const char* kind);                              // count an injected fault
void cover(uint64_t h);                                    // extra distinct-state feature
bool quiet();
int fill_byte();                                           // pattern new memory is filled with

// ---------------------------------------------------------------- scenarios
struct Scenario { const char* name; void (*fn)(); int weight; };
struct Register { Register(const char* name, void (*fn)(), int weight = 1); };
#define SCENARIO(id) static void scn_##id(); static ::sim::Register reg_##id(#id, scn_##id); static void scn_##id()
#define SCENARIO_W(id, w) static void scn_##id(); static ::sim::Register reg_##id(#id, scn_##id, w); static void scn_##id()

} // namespace sim
