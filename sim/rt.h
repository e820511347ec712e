// Internal interface of the simulator runtime.
#pragma once
#include <cstddef>
#include <cstdint>
#include <pthread.h>
#include "sim.h"
#include "vfs.h"

namespace sim {
constexpr int MAXT = 64;              // simulated threads per run
constexpr int MAXDEC = 1 << 18;

struct Dec { uint64_t pos; uint32_t val; uint8_t kind; };

constexpr int NFAULT = 48;
// One run's record: lives in memory shared between the run and its supervisor.
struct RunRec {
    // in
    uint64_t seed;
    int scenario;
    int fill;
    int replay;                        // 1: take decisions from in_dec
    uint32_t n_in;
    // out
    volatile int status;               // 0 running, 1 ok, 2 violation, 3 internal error
    char msg[6144];
    uint64_t digest, ilv_hash, cover_hash, event_hash;
    uint64_t steps, switches, decisions, sim_ns;
    uint64_t accesses;
    uint32_t threads;
    uint32_t n_dec;
    uint32_t dec_overflow;
    uint32_t n_fault;
    struct { char name[28]; uint32_t n; } fault[NFAULT];
    uint32_t n_pc;
    uint32_t pcs[512];
    uint32_t n_note;
    char notes[8192];
    Dec dec[MAXDEC];
    Dec in_dec[MAXDEC];
};
extern RunRec* rec;

// scheduler
void rt_begin_run(RunRec* r);
void rt_end_run_ok();
void preempt();
struct RtScope { RtScope(); ~RtScope(); };   // runtime-internal section: no faults, no accounting

void vfs_reset();
uint64_t sim_now_ns();
std::vector<Scenario>& scenarios();
uint64_t fnv(uint64_t h, uint64_t v);
} // namespace sim

extern "C" {
void sim_tasks(size_t n, void (*fn)(void*, size_t), void* ctx);  // run n tasks like a TBB task group
uint32_t sim_pstl_split(size_t n, size_t grain, size_t* cuts, uint32_t maxcuts); // interior cut points
}
