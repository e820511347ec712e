// Deterministic simulator runtime: seeded scheduler, happens-before race detector, OpenMP runtime, task
// scheduler, pthread / futex / once / static-guard seams, heap with fault injection, clock and entropy.
// Compiled WITHOUT instrumentation; the code under test is compiled with -fsanitize=thread and calls the
// __tsan_* entry points defined here (libtsan, libgomp and libtbb are not linked).
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <linux/futex.h>
#include <random>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <cxxabi.h>
#include <typeinfo>

extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);

static inline long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

namespace sim {
RunRec* rec = nullptr;
static Config g_cfg;
Config& cfg() { return g_cfg; }

uint64_t fnv(uint64_t h, uint64_t v)
{
    h ^= v; h *= 0x100000001b3ull; h ^= h >> 29; return h;
}

// ------------------------------------------------------------------ threads
enum St { FREE, PARKED, RUN, BLOCK, DONE };
struct Team;
struct Thr {
    int id = 0;
    St st = FREE;
    bool pool = false, detached = false, joined = false;
    const void* wait_obj = nullptr;
    uint64_t wake_ns = 0;                 // timed wait (0: none)
    bool timed_out = false;
    int baton = 0;
    uint32_t prio = 0;
    uint32_t vc[MAXT];
    pthread_t real{};
    void* (*start)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    std::function<void()>* job = nullptr;
    Team* team = nullptr;
    int team_tid = 0, level = 0, ws_idx = 0;
    uint32_t stk[128];
    uint32_t depth = 0;
};
static Thr thr[MAXT];
static int nthr = 0;
static int nrun = 0;
static int nlive = 0;                     // threads not finished (excludes parked pool threads)
static __thread Thr* self = nullptr;
static __thread volatile int in_rt = 0;   // volatile: read by interposed libc calls the optimiser believes pure
RtScope::RtScope() { in_rt = in_rt + 1; }
RtScope::~RtScope() { in_rt = in_rt - 1; }
bool in_sim() { return self != nullptr; }
int self_id() { return self ? self->id : -1; }

static uint64_t pos = 0, nsteps = 0, nswitch = 0, naccess = 0;
static uint64_t ilv = 1469598103934665603ull, evh = 1469598103934665603ull, covh = 0, dig = 1469598103934665603ull;
static uint32_t in_idx = 0;
static uint64_t dprng = 1;
static Rng* input_rng = nullptr;
static int64_t countdown = 0;
static uint32_t sw_den = 16;
static bool pct = false;
static uint64_t simclock = 0, realoff = 0;
static uint32_t prio_low = 1000;
static bool ended = false;

static inline uint64_t dnext() { dprng ^= dprng << 13; dprng ^= dprng >> 7; dprng ^= dprng << 17; return dprng * 0x2545F4914F6CDD1Dull; }
static inline uint64_t dbelow(uint64_t n) { return (dnext() >> 20) % n; }
Rng& in() { return *input_rng; }
uint64_t steps() { return nsteps; }

static void record(uint8_t kind, uint32_t v)
{
    if (!rec) return;
    if (rec->n_dec < (uint32_t)MAXDEC) { Dec& d = rec->dec[rec->n_dec]; d.pos = pos; d.val = v; d.kind = kind; rec->n_dec++; }
    else rec->dec_overflow++;
}
static bool replay_lookup(uint32_t& v)
{
    while (in_idx < rec->n_in && rec->in_dec[in_idx].pos < pos) ++in_idx;
    if (in_idx < rec->n_in && rec->in_dec[in_idx].pos == pos) { v = rec->in_dec[in_idx].val; ++in_idx; return true; }
    return false;
}
uint32_t decide(Kind k, uint32_t n)
{
    if (!rec) return 0;
    ++pos;
    rec->decisions++;
    if (n <= 1) return 0;
    uint32_t v = 0;
    if (rec->replay) { if (replay_lookup(v)) v %= n; }
    else v = (uint32_t)dbelow(n);
    if (v) record(k, v);
    evh = fnv(evh, ((uint64_t)k << 32) | v);
    return v;
}
uint32_t decide_p(Kind k, uint32_t n, uint32_t num, uint32_t den)
{
    if (!rec) return 0;
    ++pos;
    rec->decisions++;
    if (n <= 1) return 0;
    uint32_t v = 0;
    if (rec->replay) { if (replay_lookup(v)) v %= n; }
    else if (dbelow(den) < num) v = 1 + (uint32_t)dbelow(n - 1);
    if (v) record(k, v);
    evh = fnv(evh, ((uint64_t)k << 32) | v);
    return v;
}

void fault(const char* kind)
{
    if (!rec) return;
    for (uint32_t i = 0; i < rec->n_fault; ++i) if (!strcmp(rec->fault[i].name, kind)) { rec->fault[i].n++; return; }
    if (rec->n_fault < (uint32_t)NFAULT) { snprintf(rec->fault[rec->n_fault].name, 28, "%s", kind); rec->fault[rec->n_fault++].n = 1; }
}
void cover(uint64_t h) { covh = fnv(covh, h); }
void digest(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) dig = (dig ^ c[i]) * 0x100000001b3ull;
}
void digest_u64(uint64_t v) { digest(&v, 8); }
uint64_t digest_value() { return dig; }
int fill_byte() { return rec ? rec->fill : 0; }
void note(const std::string& s)
{
    RtScope r;
    if (!rec) return;
    uint32_t room = sizeof(rec->notes) - 1 - rec->n_note;
    uint32_t n = (uint32_t)std::min<size_t>(room, s.size());
    __real_memcpy(rec->notes + rec->n_note, s.data(), n);
    rec->n_note += n;
    if (rec->n_note < sizeof(rec->notes) - 1) rec->notes[rec->n_note++] = '\n';
    rec->notes[rec->n_note] = 0;
}
bool quiet() { return true; }

static void flush_out()
{
    if (!rec) return;
    rec->digest = dig; rec->ilv_hash = ilv; rec->cover_hash = covh; rec->event_hash = evh;
    rec->steps = nsteps; rec->switches = nswitch; rec->sim_ns = simclock - 1000000000ull; rec->accesses = naccess;
    rec->threads = (uint32_t)nthr;
}
[[noreturn]] static void finish(int status)
{
    flush_out();
    rec->status = status;
    raw_syscall(SYS_exit_group, status == 1 ? 0 : 10 + status);
    __builtin_unreachable();
}
[[noreturn]] void violation(const std::string& msg)
{
    ++in_rt;
    if (!rec) { fprintf(stderr, "violation outside a run: %s\n", msg.c_str()); _exit(3); }
    if (!rec->msg[0]) snprintf(rec->msg, sizeof(rec->msg), "%s", msg.c_str());
    if (self && self->depth) {
        size_t l = strlen(rec->msg);
        // innermost frames of the violating thread
        int n = 0;
        for (int i = (int)std::min<uint32_t>(self->depth, 128) - 1; i >= 0 && n < 8; --i, ++n)
            l += snprintf(rec->msg + l, sizeof(rec->msg) - l, "%s[pc=%x]", n ? " " : " | stack: ", self->stk[i]);
    }
    finish(2);
}
void check(bool ok, const std::string& msg) { if (!ok) violation(msg); }
void rt_end_run_ok() { finish(1); }

// ------------------------------------------------------------------ baton
static void fwait(Thr* t)
{
    while (__atomic_load_n(&t->baton, __ATOMIC_ACQUIRE) == 0)
        raw_syscall(SYS_futex, (long)&t->baton, FUTEX_WAIT_PRIVATE, 0, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_RELAXED);
}
static void fpost(Thr* t)
{
    __atomic_store_n(&t->baton, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)&t->baton, FUTEX_WAKE_PRIVATE, 1);
}
static int64_t geom()
{
    uint64_t thin = 1 + nswitch / 1500;            // long runs: switches get rarer, so a run's cost stays bounded
    if (pct) return 1 + (int64_t)dbelow(sw_den * 8 * thin);
    return 1 + (int64_t)dbelow(sw_den * 2 * thin);
}
static void hash_switch(Thr* from, Thr* to)
{
    ++nswitch;
    ilv = fnv(ilv, ((uint64_t)from->id << 40) ^ ((uint64_t)to->id << 32) ^ (nsteps & 0xffffffff));
}
static Thr* choose_next()
{
    // the current thread is not runnable: some other one has to run
    for (;;) {
        Thr* c[MAXT]; int n = 0;
        for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN && &thr[i] != self) c[n++] = &thr[i];
        if (n) {
            uint32_t v;
            ++pos; rec->decisions++;
            v = 0;
            if (n > 1) {
                if (rec->replay) { if (replay_lookup(v)) v %= (uint32_t)n; }
                else if (pct) { for (int i = 1; i < n; ++i) if (c[i]->prio > c[v]->prio) v = i; }
                else v = (uint32_t)dbelow(n);
                if (v) record(K_SCHED, v);
            }
            return c[v];
        }
        // nobody can run: let time pass to the earliest timed wait
        Thr* t = nullptr;
        for (int i = 0; i < nthr; ++i)
            if (thr[i].st == BLOCK && thr[i].wake_ns && (!t || thr[i].wake_ns < t->wake_ns)) t = &thr[i];
        if (t) {
            if (simclock < t->wake_ns) simclock = t->wake_ns;
            t->timed_out = true; t->wake_ns = 0; t->st = RUN; ++nrun; t->wait_obj = nullptr;
            if (t == self) return t;
            continue;
        }
        std::string m = "deadlock: no thread can make progress;";
        for (int i = 0; i < nthr; ++i)
            if (thr[i].st == BLOCK) {
                char b[160]; Thr& x = thr[i];
                uint32_t pc = x.depth ? x.stk[std::min<uint32_t>(x.depth, 128) - 1] : 0;
                snprintf(b, sizeof b, " thread %d waits in [pc=%x]", x.id, pc); m += b;
            }
        violation(m);
    }
}
static void block_self(const void* obj, uint64_t wake_ns = 0)
{
    Thr* me = self;
    me->st = BLOCK; me->wait_obj = obj; me->wake_ns = wake_ns; me->timed_out = false; --nrun;
    Thr* t = choose_next();
    if (t == me) return;
    hash_switch(me, t);
    fpost(t);
    fwait(me);
}
static int wake_all(const void* obj, int max = 1 << 30)
{
    int n = 0;
    for (int i = 0; i < nthr && n < max; ++i)
        if (thr[i].st == BLOCK && thr[i].wait_obj == obj) { thr[i].st = RUN; thr[i].wait_obj = nullptr; thr[i].wake_ns = 0; ++nrun; ++n; }
    return n;
}
static void step_check()
{
    if (++nsteps > g_cfg.step_limit) { g_cfg.step_limit = ~0ull; violation("no progress: step limit reached without finishing"); }
}
static inline void preempt_at(uint32_t pc)
{
    Thr* me = self;
    if (!me || in_rt || nrun <= 1) return;
    ++pos;
    step_check();
    uint32_t v = 0;
    if (rec->replay) { if (!replay_lookup(v)) return; }
    else {
        if (--countdown > 0) return;
        countdown = geom();
        if (pct) {
            me->prio = --prio_low;                      // change point: this thread loses its priority
            int best = 0, k = 0; uint32_t bp = me->prio;
            for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN && &thr[i] != me) { ++k; if (thr[i].prio > bp) { bp = thr[i].prio; best = k; } }
            v = (uint32_t)best;
        } else v = 1 + (uint32_t)dbelow(nrun - 1);
    }
    if (!v) return;
    int n = nrun - 1;
    if (n <= 0) return;
    int want = (int)((v - 1) % (uint32_t)n);
    Thr* t = nullptr;
    for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN && &thr[i] != me) { if (want-- == 0) { t = &thr[i]; break; } }
    if (!t) return;
    record(K_SCHED, v);
    if (rec->n_pc < 512) rec->pcs[rec->n_pc++] = pc;
    hash_switch(me, t);
    fpost(t);
    fwait(me);
}
void preempt() { preempt_at(0); }
void yield() { preempt_at(1); }

// ------------------------------------------------------------------ vector clocks / sync objects
struct Sync { uint32_t vc[MAXT]; int owner = -1; int count = 0; int readers = 0; int state = 0; int rd[MAXT]; };
static std::unordered_map<const void*, Sync*>* syncs;
static Sync* sync_of(const void* p)
{
    RtScope r;
    if (!syncs) syncs = new std::unordered_map<const void*, Sync*>();
    Sync*& s = (*syncs)[p];
    if (!s) { s = new Sync(); __real_memset(s->vc, 0, sizeof s->vc); __real_memset(s->rd, 0, sizeof s->rd); }
    return s;
}
static void sync_drop(const void* p) { RtScope r; if (syncs) { auto i = syncs->find(p); if (i != syncs->end()) { delete i->second; syncs->erase(i); } } }
static inline void vc_join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < nthr; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(const void* p) { if (self) vc_join(self->vc, sync_of(p)->vc); }
static void release(const void* p) { if (self) { Sync* s = sync_of(p); vc_join(s->vc, self->vc); self->vc[self->id]++; } }

// ------------------------------------------------------------------ race detector (tsan-like shadow: 4 slots per 8 bytes)
struct Slot { uint32_t clk; uint32_t pc; uint8_t tid; uint8_t mask; uint8_t write; uint8_t used; };
struct Granule { Slot s[4]; };
struct ShPage { Granule g[512]; };
static ShPage*** sh_root;                    // 2-level table over 48-bit address >> 12
static ShPage* sh_page(uintptr_t a, bool create)
{
    static uintptr_t last_k = ~0ull; static ShPage* last = nullptr;
    uintptr_t k = a >> 12;
    if (k == last_k) return last;
    size_t hi = (k >> 18) & 0x3ffff, lo = k & 0x3ffff;
    if (!sh_root) { if (!create) return nullptr; sh_root = (ShPage***)mmap(0, sizeof(void*) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    if (!sh_root[hi]) { if (!create) return nullptr; sh_root[hi] = (ShPage**)mmap(0, sizeof(void*) << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    ShPage*& p = sh_root[hi][lo];
    if (!p) { if (!create) return nullptr; p = (ShPage*)mmap(0, sizeof(ShPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
    last_k = k; last = p;
    return p;
}
static void shadow_clear(uintptr_t a, size_t n)
{
    if (!sh_root) return;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ull; g < e;) {
        ShPage* p = sh_page(g, false);
        if (!p) { g = (g | 4095) + 1; continue; }
        __real_memset(&p->g[(g >> 3) & 511], 0, sizeof(Granule));
        g += 8;
    }
}
[[noreturn]] static void report_race(uintptr_t a, uint32_t pc, bool w, const Slot& o)
{
    char b[256];
    snprintf(b, sizeof b, "data race: %s at [pc=%x] by thread %d conflicts with unordered %s at [pc=%x] by thread %d",
             w ? "write" : "read", pc, self->id, o.write ? "write" : "read", o.pc, (int)o.tid);
    (void)a;
    violation(b);
}
static void race_granule(uintptr_t g, uint8_t mask, bool w, uint32_t pc)
{
    Granule& G = sh_page(g, true)->g[(g >> 3) & 511];
    int id = self->id; uint32_t clk = self->vc[id];
    int freeslot = -1, mine = -1;
    for (int i = 0; i < 4; ++i) {
        Slot& s = G.s[i];
        if (!s.used) { if (freeslot < 0) freeslot = i; continue; }
        if (s.tid == id) {
            if (s.mask == mask && s.write == w) mine = i;
            else if ((s.mask & ~mask) == 0 && w) mine = mine < 0 ? i : mine;
            continue;
        }
        if ((s.mask & mask) && (w || s.write) && s.clk > self->vc[s.tid]) report_race(g, pc, w, s);
        if (s.clk <= self->vc[s.tid] && freeslot < 0 && (s.mask & ~mask) == 0 && (w || !s.write)) freeslot = i; // superseded
    }
    int k = mine >= 0 ? mine : freeslot >= 0 ? freeslot : (int)((g >> 3) + naccess) & 3;
    G.s[k] = Slot{clk, pc, (uint8_t)id, mask, (uint8_t)w, 1};
}
static inline void race_range(uintptr_t a, size_t n, bool w, uint32_t pc)
{
    uintptr_t e = a + n;
    while (a < e) {
        uintptr_t g = a & ~7ull;
        unsigned off = a & 7; unsigned len = (unsigned)std::min<size_t>(8 - off, e - a);
        race_granule(g, (uint8_t)(((1u << len) - 1) << off), w, pc);
        a += len;
    }
}

// ------------------------------------------------------------------ heap
static constexpr uintptr_t ARENA = 0x100000000000ull, ARENA_SZ = 24ull << 30, HSH = 0x180000000000ull;
static uintptr_t brk_ = 0;
static volatile int heap_lock = 0;
struct Hdr { uint64_t size; uint32_t cls; uint32_t magic; };      // 16 bytes before the block
static constexpr uint32_t MAGIC_LIVE = 0x51f0a11c, MAGIC_RT = 0x51f0a11d, MAGIC_FREE = 0xdeadf4ee;
struct FreeNode { FreeNode* next; };
static constexpr int NCLS = 64 + 32;
static FreeNode* freelist[NCLS];
static Hdr* quar[1 << 16]; static uint32_t qh = 0, qt = 0; static uint64_t qbytes = 0;
static uint64_t livebytes = 0; static int64_t liveblocks = 0;
static uint64_t armed_count = 0; static bool armed = false, fired = false; static uint32_t armed_nth = 0; static bool armed_sticky = false;
uint64_t live_bytes() { return livebytes; }
int64_t live_blocks() { return liveblocks; }
uint64_t armed_allocs() { return armed_count; }
bool alloc_fault_fired() { return fired; }
AllocGuard::AllocGuard(uint32_t nth, bool sticky) { armed = true; armed_count = 0; fired = false; armed_nth = nth; armed_sticky = sticky; }
AllocGuard::~AllocGuard() { armed = false; }

static void hlock() { while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) raw_syscall(SYS_sched_yield); }
static void hunlock() { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
static inline uint8_t* hsh(uintptr_t a) { return (uint8_t*)(HSH + ((a - ARENA) >> 3)); }
static void heap_init()
{
    void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)HSH, ARENA_SZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA || q != (void*)HSH) { const char m[] = "sim: cannot map arena\n"; raw_syscall(SYS_write, 2, (long)m, sizeof m - 1); raw_syscall(SYS_exit_group, 3); }
    brk_ = ARENA + 64;
}
static inline int cls_of(size_t n, size_t& cap)
{
    if (n <= 1024) { size_t c = (n + 15) / 16; if (!c) c = 1; cap = c * 16; return (int)c - 1; }
    int b = 64; cap = 2048;
    while (cap < n) { cap <<= 1; ++b; }
    return b;
}
// shadow byte: 0 = never allocated, 1..8 = that many leading bytes valid, 0xFA redzone, 0xFD freed
static void mark(uintptr_t a, size_t n)
{
    uint8_t* s = hsh(a);
    size_t full = n / 8;
    __real_memset(s, 8, full);
    if (n % 8) { s[full] = (uint8_t)(n % 8); ++full; }
    s[full] = 0xFA;
}
static bool alloc_denied(size_t n)
{
    if (!self || in_rt || ended) return false;
    if (livebytes + n > g_cfg.mem_budget) { fault("alloc-over-budget"); return true; }
    if (armed) {
        ++armed_count;
        if (armed_nth && (armed_count == armed_nth || (armed_sticky && armed_count > armed_nth))) { fired = true; fault("alloc-failure"); return true; }
    }
    return false;
}
static void* heap_alloc(size_t n, size_t align = 16)
{
    if (n > (8ull << 30)) { errno = ENOMEM; return nullptr; }
    if (alloc_denied(n)) { errno = ENOMEM; return nullptr; }
    hlock();
    if (!brk_) heap_init();
    size_t cap; int c;
    uintptr_t u = 0;
    if (align <= 16) {
        c = cls_of(n + 16, cap);             // at least 16 bytes of red zone behind the block
        if (freelist[c]) { FreeNode* f = freelist[c]; freelist[c] = f->next; u = (uintptr_t)f; }
    } else { cap = (n + 31) & ~15ull; c = -1; }
    if (!u) {
        uintptr_t p = brk_ + sizeof(Hdr);
        p = (p + align - 1) & ~(uintptr_t)(align - 1);
        if (p + cap > ARENA + ARENA_SZ) { hunlock(); errno = ENOMEM; return nullptr; }
        *hsh(p - 16) = 0xFA; *hsh(p - 8) = 0xFA;
        u = p; brk_ = p + cap;
    }
    Hdr* h = (Hdr*)(u - sizeof(Hdr));
    h->size = n; h->cls = (uint32_t)c; h->magic = in_rt ? MAGIC_RT : MAGIC_LIVE;
    mark(u, n);
    if (!in_rt) { livebytes += n; ++liveblocks; }
    hunlock();
    if (rec) {
        size_t k = std::min<size_t>(n, 1 << 20);
        unsigned f = (unsigned)rec->fill;
        __real_memset((void*)u, (int)(f & 0xff), k);
        if (self && !in_rt) shadow_clear(u, n);      // also when every other thread has ended: they may not have been joined yet
    }
    return (void*)u;
}
[[noreturn]] static void heap_bad(const char* what, uint32_t pc)
{
    char b[160]; snprintf(b, sizeof b, "memory error: %s at [pc=%x]", what, pc);
    violation(b);
}
static void heap_free(void* p, uint32_t pc)
{
    if (!p) return;
    uintptr_t u = (uintptr_t)p;
    if (u < ARENA || u >= ARENA + ARENA_SZ) { if (self) heap_bad("free of a pointer that was not allocated", pc); return; }
    Hdr* h = (Hdr*)(u - sizeof(Hdr));
    const bool rtblk = h->magic == MAGIC_RT;
    if (h->magic != MAGIC_LIVE && !rtblk) { if (self && !ended) heap_bad(h->magic == MAGIC_FREE ? "double free" : "free of an invalid pointer", pc); return; }
    if (self && !in_rt && !ended && g_cfg.races && nlive > 1) race_range(u, std::min<size_t>(h->size, 4096), true, pc);
    hlock();
    h->magic = MAGIC_FREE;
    if (!rtblk) { livebytes -= h->size; --liveblocks; }
    size_t g = (h->size + 7) / 8;
    __real_memset(hsh(u), 0xFD, g ? g : 1);
    if ((int)h->cls >= 0) {
        quar[qt++ & 0xffff] = h; qbytes += h->size;
        while (qbytes > (4u << 20) || qt - qh >= 0xffff) {
            Hdr* o = quar[qh++ & 0xffff]; qbytes -= o->size;
            FreeNode* f = (FreeNode*)((uintptr_t)o + sizeof(Hdr));
            f->next = freelist[o->cls]; freelist[o->cls] = f;
        }
    }
    hunlock();
}
static inline void heap_check(uintptr_t a, size_t n, bool w, uint32_t pc)
{
    if (a - ARENA >= ARENA_SZ) return;
    uintptr_t e = a + n - 1;
    uint8_t s0 = *hsh(a), s1 = *hsh(e);
    if (__builtin_expect(s0 == 8 && s1 == 8, 1)) return;
    auto bad = [](uintptr_t x) { uint8_t s = *hsh(x); return s > 8 || s == 0 || (x & 7) >= s; };
    if (bad(a) || bad(e)) {
        uint8_t s = bad(a) ? s0 : s1;
        heap_bad(s == 0xFD ? (w ? "write to freed memory" : "read of freed memory") : (w ? "heap write out of bounds" : "heap read out of bounds"), pc);
    }
}
static inline void access(uintptr_t a, size_t n, bool w, uint32_t pc)
{
    if (!self || in_rt) return;
    ++naccess;
    if ((naccess & 0xfffff) == 0 && naccess > g_cfg.access_limit) { g_cfg.access_limit = ~0ull; violation("no progress: access limit reached without finishing"); }
    if (a < 4096) heap_bad(w ? "null pointer write" : "null pointer read", pc);
    heap_check(a, n, w, pc);
    if (nlive > 1) {
        if (g_cfg.races) race_range(a, n, w, pc);
        preempt_at(pc);
    }
}

void sim_touch(const void* p, size_t n, bool w, uint32_t pc) { if (n) access((uintptr_t)p, n, w, pc); }

// ------------------------------------------------------------------ thread start / pool
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
template <class F> static void next_sym(F& f, const char* n) { if (!f) { RtScope r; f = (F)dlsym(RTLD_NEXT, n); } }

static Thr* new_thr(bool pool)
{
    if (nthr >= MAXT) violation("internal: too many simulated threads");
    Thr* t = &thr[nthr];
    t->id = nthr; t->pool = pool; t->st = FREE; t->baton = 0; t->depth = 0;
    __real_memset(t->vc, 0, sizeof t->vc);
    t->vc[t->id] = 1;
    ++nthr;
    return t;
}
static void make_runnable(Thr* t)
{
    vc_join(t->vc, self->vc);
    self->vc[self->id]++;
    t->vc[t->id]++;                      // a reused pool thread starts a new epoch
    t->st = RUN; ++nrun; ++nlive;
    t->prio = 2000 + (uint32_t)(rec->replay ? 0 : dbelow(1000));
}
static void finish_thread(Thr* me)   // me hands the baton over and never needs it again (or parks)
{
    --nrun; --nlive;
    wake_all(me);
    Thr* t = nullptr;
    if (nrun > 0 || true) t = choose_next();
    hash_switch(me, t);
    fpost(t);
}
static void* pool_main(void* p)
{
    Thr* me = (Thr*)p;
    self = me;
    for (;;) {
        fwait(me);
        (*me->job)();
        me->job = nullptr;
        me->st = PARKED;
        finish_thread(me);
    }
    return nullptr;
}
static Thr* pool_start(std::function<void()>* job)
{
    Thr* t = nullptr;
    for (int i = 0; i < nthr; ++i) if (thr[i].pool && thr[i].st == PARKED) { t = &thr[i]; break; }
    RtScope r;
    if (!t) {
        next_sym(real_create, "pthread_create");
        t = new_thr(true);
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
        if (real_create(&t->real, &at, pool_main, t)) violation("internal: cannot create pool thread");
        pthread_attr_destroy(&at);
    }
    t->job = job; t->team = nullptr; t->level = self->level; t->team_tid = 0; t->ws_idx = 0; t->depth = 0;
    make_runnable(t);
    return t;
}
static void pool_wait(Thr* t, std::function<void()>* job)
{
    while (t->job == job && t->st != PARKED) block_self(t);
    vc_join(self->vc, t->vc);
}

void clients(const std::vector<std::function<void()>>& bodies)
{
    std::vector<std::function<void()>>* b;
    Thr* ts[MAXT]; int n = 0;
    { RtScope r; b = new std::vector<std::function<void()>>(bodies); }
    for (auto& f : *b) ts[n++] = pool_start(&f);
    for (int i = 0; i < n; ++i) pool_wait(ts[i], &(*b)[i]);
    RtScope r; delete b;
}

void run(const std::function<void()>& body)
{
    if (self) violation("internal: nested run");
    static Thr* t0 = nullptr;
    if (!t0) { t0 = new_thr(false); }
    t0->st = RUN; t0->depth = 0; t0->level = 0; t0->team = nullptr;
    nrun = 1; nlive = 1;
    self = t0;
    body();
    // let anything still running finish (detached or unjoined work)
    while (nlive > 1) { t0->st = BLOCK; t0->wait_obj = (void*)1; --nrun; Thr* t = nullptr;
        bool any = false; for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN) any = true;
        t0->wake_ns = any ? 0 : simclock + 1; (void)t;
        // run the others, resume when they are done or blocked for good
        Thr* x = choose_next();
        if (x != t0) { t0->wake_ns = simclock + 1000000; hash_switch(t0, x); fpost(x); fwait(t0); }
    }
    self = nullptr;
}

void serial_config() { g_cfg = Config(); g_cfg.omp_threads = 1; g_cfg.pstl_workers = 1; }
void randomize_config()
{
    g_cfg = Config();
    g_cfg.omp_threads = 1 + (int)in().below(6);
    if (in().chance(3, 4) && g_cfg.omp_threads == 1) g_cfg.omp_threads = 2;
    g_cfg.pstl_workers = 1 + (int)in().below(5);
    if (in().chance(3, 4) && g_cfg.pstl_workers == 1) g_cfg.pstl_workers = 2;
    g_cfg.omp_nested = in().chance(1, 3);
}

// ------------------------------------------------------------------ run set-up
std::vector<Scenario>& scenarios() { static std::vector<Scenario>* v = new std::vector<Scenario>(); return *v; }
Register::Register(const char* n, void (*f)(), int w) { scenarios().push_back({n, f, w}); }
uint64_t sim_now_ns() { return simclock; }

static void on_signal(int sig)
{
    ++in_rt;
    if (rec) {
        const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGPROF ? "the run does not terminate (cpu guard)" : "signal";
        if (!rec->msg[0]) {
            size_t l = (size_t)snprintf(rec->msg, sizeof rec->msg, sig == SIGPROF ? "hang: %s" : sig == SIGALRM ? "internal: wall-clock guard %s" : "crash: %s", n);
            if (sig == SIGABRT) {
                const std::type_info* t = abi::__cxa_current_exception_type();
                if (t) l += snprintf(rec->msg + l, sizeof rec->msg - l, " (uncaught exception %s)", t->name());
            }
            if (self) { int k = 0; for (int i = (int)std::min<uint32_t>(self->depth, 128) - 1; i >= 0 && k < 8; --i, ++k) l += snprintf(rec->msg + l, sizeof rec->msg - l, "%s[pc=%x]", k ? " " : " | stack: ", self->stk[i]); }
        }
        flush_out();
        rec->status = sig == SIGALRM ? 3 : 2;
    }
    raw_syscall(SYS_exit_group, 12);
}
void rt_begin_run(RunRec* r)
{
    rec = r;
    r->status = 0; r->msg[0] = 0; r->n_dec = 0; r->dec_overflow = 0; r->n_fault = 0; r->n_pc = 0; r->n_note = 0; r->notes[0] = 0; r->decisions = 0;
    dprng = r->seed * 0x9E3779B97F4A7C15ull ^ 0xA5A5A5A55A5A5A5Aull; if (!dprng) dprng = 1;
    for (int i = 0; i < 4; ++i) dnext();
    input_rng = new Rng(r->seed);
    static const uint32_t dens[] = {1, 2, 5, 12, 40, 150, 600};
    sw_den = dens[dbelow(7)];
    pct = dbelow(4) == 0;
    countdown = geom();
    simclock = 1000000000ull; realoff = 1700000000ull * 1000000000ull;
    static char altstack[65536];
    stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGPROF}) sigaction(s, &sa, nullptr);
}
void rt_mark_ended() { ended = true; }

// ------------------------------------------------------------------ teams (OpenMP)
struct WorkShare { long next, end, incr, chunk; bool up = true; unsigned long long unext, uend, uincr, uchunk; bool ull = false; int kind = 0; int sect = 0, nsect = 0; bool single_taken = false; void* copy = nullptr; };
struct Team {
    int n; int level; Team* parent;
    int arrived = 0; int gen = 0;
    std::vector<WorkShare*>* ws;
};
static int omp_set_n = 0;
static Team* cur_team() { return self ? self->team : nullptr; }

static void team_run(void (*fn)(void*), void* data, unsigned num)
{
    if (!self || in_rt) { // outside a simulated section: one thread
        fn(data); return;
    }
    int n = (int)num;
    if (n <= 0) n = omp_set_n > 0 ? omp_set_n : (g_cfg.omp_threads > 0 ? g_cfg.omp_threads : 4);
    if (self->level > 0 && !g_cfg.omp_nested) n = 1;
    if (n > 8) n = 8;
    // never exceed the number of simulated threads
    int busy = 0; for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN || thr[i].st == BLOCK) ++busy;
    if (busy + n - 1 > MAXT - 8) n = 1;
    Team* tm; std::vector<std::function<void()>>* jobs;
    {
        RtScope r;
        tm = new Team(); tm->ws = new std::vector<WorkShare*>(); tm->n = n; tm->level = self->level + 1; tm->parent = self->team;
        jobs = new std::vector<std::function<void()>>(n);
    }
    Team* ot = self->team; int otid = self->team_tid, olv = self->level, ows = self->ws_idx;
    Thr* ts[16];
    for (int i = 1; i < n; ++i) {
        { RtScope r; (*jobs)[i] = [fn, data] { fn(data); }; }
        Thr* t = ts[i] = pool_start(&(*jobs)[i]);
        t->team = tm; t->team_tid = i; t->level = tm->level; t->ws_idx = 0;
    }
    self->team = tm; self->team_tid = 0; self->level = tm->level; self->ws_idx = 0;
    preempt_at(2);
    fn(data);
    self->team = ot; self->team_tid = otid; self->level = olv; self->ws_idx = ows;
    for (int i = 1; i < n; ++i) pool_wait(ts[i], &(*jobs)[i]);
    RtScope r;
    for (auto w : *tm->ws) delete w;
    delete tm->ws; delete tm; delete jobs;
}
static void team_barrier()
{
    Team* t = cur_team();
    if (!t || t->n == 1) return;
    preempt_at(3);
    release(t);
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; wake_all(t); }
    else { int g = t->gen; while (t->gen == g) block_self(t); }
    acquire(t);
}
// outside a team (the serial reference, orphaned constructs): a stack per thread, a loop may contain another one
static __thread int solo_n; static __thread WorkShare* solo_st_; 
#define solo_st (solo_st_ ? solo_st_ : (solo_st_ = solo_new()))
static WorkShare* solo_new() { RtScope r; return new WorkShare[64]; }
static void solo_end() { if (!cur_team() && solo_n > 0) --solo_n; }
static WorkShare* ws_get(bool& first)
{
    Team* t = cur_team();
    if (!t) { first = true; if (solo_n < 63) ++solo_n; solo_st[solo_n] = WorkShare(); return &solo_st[solo_n]; }
    RtScope r;
    int i = self->ws_idx++;
    first = (int)t->ws->size() <= i;
    if (first) t->ws->push_back(new WorkShare());
    return (*t->ws)[i];
}
static WorkShare* ws_cur()
{
    Team* t = cur_team();
    if (!t) return &solo_st[solo_n];
    return (*t->ws)[self->ws_idx - 1];
}
static bool ws_next(WorkShare* w, long* s, long* e)
{
    preempt_at(4);
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    *s = w->next;
    long n = w->next + w->incr * (w->chunk > 0 ? w->chunk : 1);
    if (w->incr > 0 ? n > w->end : n < w->end) n = w->end;
    w->next = n; *e = n;
    return true;
}
static bool ws_start(long st, long en, long inc, long ch, long* s, long* e)
{
    bool first; WorkShare* w = ws_get(first);
    if (first) { w->next = st; w->end = en; w->incr = inc; w->chunk = ch; }
    return ws_next(w, s, e);
}
static bool ws_unext(WorkShare* w, unsigned long long* s, unsigned long long* e)
{
    preempt_at(4);
    if (w->up ? w->unext >= w->uend : w->unext <= w->uend) return false;
    *s = w->unext;
    unsigned long long c = w->uchunk > 0 ? w->uchunk : 1, n;
    if (w->up) { unsigned long long left = (w->uend - w->unext + w->uincr - 1) / w->uincr; n = left <= c ? w->uend : w->unext + w->uincr * c; }
    else { n = w->unext + w->uincr * c; if (n < w->uend || n > w->unext) n = w->uend; }
    w->unext = n; *e = n;
    return true;
}
static bool ws_ustart(bool up, unsigned long long st, unsigned long long en, unsigned long long inc, unsigned long long ch, unsigned long long* s, unsigned long long* e)
{
    bool first; WorkShare* w = ws_get(first);
    if (first) { w->up = up; w->unext = st; w->uend = en; w->uincr = inc; w->uchunk = ch; w->ull = true; }
    return ws_unext(w, s, e);
}
static WorkShare* ws_now() { return ws_cur(); }

// mutexes -----------------------------------------------------------------
static void mtx_lock(const void* m, bool recursive)
{
    preempt_at(5);
    Sync* s = sync_of(m);
    if (s->owner == self->id && recursive) { s->count++; return; }
    while (s->owner != -1) { block_self(m); }
    s->owner = self->id; s->count = 1;
    acquire(m);
}
static bool mtx_try(const void* m, bool recursive)
{
    preempt_at(5);
    Sync* s = sync_of(m);
    if (s->owner == self->id && recursive) { s->count++; return true; }
    if (s->owner != -1) return false;
    s->owner = self->id; s->count = 1;
    acquire(m);
    return true;
}
static void mtx_unlock(const void* m)
{
    Sync* s = sync_of(m);
    if (s->owner != self->id) { if (s->owner == -1) return; violation("mutex unlocked by a thread that does not hold it"); }
    if (--s->count > 0) return;
    release(m);
    s->owner = -1;
    wake_all(m);
    preempt_at(6);
}

// tasks (TBB model) --------------------------------------------------------
static int pstl_helpers = 0;
struct Group { size_t n; std::vector<size_t>* pend; void (*fn)(void*, size_t); void* ctx; std::exception_ptr err; bool cancelled = false; };
static void group_work(Group* g)
{
    for (;;) {
        preempt_at(7);
        size_t i;
        {
            RtScope r;
            if (g->cancelled) g->pend->clear();
            if (g->pend->empty()) return;
            uint32_t k = decide(K_TASK, (uint32_t)std::min<size_t>(g->pend->size(), 8));
            i = (*g->pend)[k];
            g->pend->erase(g->pend->begin() + k);
        }
        try { g->fn(g->ctx, i); }
        catch (...) { RtScope r; if (!g->err) g->err = std::current_exception(); g->cancelled = true; }
    }
}
} // namespace sim

using namespace sim;

extern "C" {
void sim_tasks(size_t n, void (*fn)(void*, size_t), void* ctx)
{
    if (!self || in_rt) { for (size_t i = 0; i < n; ++i) fn(ctx, i); return; }
    if (n == 0) return;
    Group g{n, nullptr, fn, ctx, nullptr};
    std::vector<std::function<void()>>* jobs;
    int w = g_cfg.pstl_workers > 0 ? g_cfg.pstl_workers : 4;
    int h = (int)std::min<size_t>(n - 1, (size_t)std::max(0, w - 1 - pstl_helpers));
    int busy = 0; for (int i = 0; i < nthr; ++i) if (thr[i].st == RUN || thr[i].st == BLOCK) ++busy;
    if (busy + h > MAXT - 4) h = 0;
    {
        RtScope r;
        g.pend = new std::vector<size_t>(n);
        for (size_t i = 0; i < n; ++i) (*g.pend)[i] = i;
        jobs = new std::vector<std::function<void()>>(h);
    }
    pstl_helpers += h;
    Thr* ts[64];
    for (int i = 0; i < h; ++i) {
        { RtScope r; (*jobs)[i] = [&g] { group_work(&g); }; }
        ts[i] = pool_start(&(*jobs)[i]);
        ts[i]->level = 0;
    }
    group_work(&g);
    for (int i = 0; i < h; ++i) pool_wait(ts[i], &(*jobs)[i]);
    pstl_helpers -= h;
    { RtScope r; delete g.pend; delete jobs; }
    if (g.err) { auto e = g.err; std::rethrow_exception(e); }
}
uint32_t sim_pstl_split(size_t n, size_t grain, size_t* cuts, uint32_t maxcuts)
{
    if (!self || in_rt) return 0;
    if (g_cfg.pstl_workers == 1) { if (n < 2 * grain) return 0; }
    uint32_t want = decide(K_CHUNK, 7);               // number of interior cuts tried
    if (want == 6) want = maxcuts;                    // fine-grained
    uint32_t k = 0; size_t prev = 0;
    for (uint32_t i = 0; i < want && k < maxcuts; ++i) {
        size_t left = n - prev;
        if (left < 2 * grain) break;
        size_t span = left - 2 * grain + 1;
        size_t step = want >= 6 ? grain : grain + decide(K_CHUNK, (uint32_t)std::min<size_t>(span, 1u << 20));
        prev += step; cuts[k++] = prev;
    }
    return k;
}

// ---------------------------------------------------------------- __tsan_* callbacks
#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (self) { uint32_t d = self->depth++; self->stk[d < 128 ? d : 127] = PC; (void)pc; } }
void __tsan_func_exit() { if (self && self->depth) --self->depth; }
#define RW(n) \
    void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) \
    void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, PC); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_vptr_update(void** v, void*) { access((uintptr_t)v, 8, true, PC); }
void __tsan_vptr_read(void** v) { access((uintptr_t)v, 8, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { if (n) access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (n) access((uintptr_t)a, n, true, PC); }
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (self && n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (self && n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); }
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (self && n) access((uintptr_t)d, n, true, PC);
    return __real_memset(d, c, n);
}

// Mirrors libtsan's ABI. Orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline void at_pre(const volatile void* a, size_t n, uint32_t pc)
{
    if (!self || in_rt) return;
    if ((uintptr_t)a < 4096) heap_bad("null pointer atomic access", pc);
    heap_check((uintptr_t)a, n, true, pc);
    if (nlive > 1) preempt_at(pc);
}
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo >= 3; }
#define ATOMICS(T, N) \
    T __tsan_atomic##N##_load(const volatile T* a, int mo) { at_pre(a, sizeof(T), PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (self && is_acq(mo)) acquire((const void*)a); return v; } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_rel(mo)) { __real_memset(sync_of((const void*)a)->vc, 0, sizeof(Sync::vc)); release((const void*)a); } __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_acq(mo)) acquire((const void*)a); if (self && is_rel(mo)) release((const void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_acq(mo)) acquire((const void*)a); if (self && is_rel(mo)) release((const void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_acq(mo)) acquire((const void*)a); if (self && is_rel(mo)) release((const void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_acq(mo)) acquire((const void*)a); if (self && is_rel(mo)) release((const void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_acq(mo)) acquire((const void*)a); if (self && is_rel(mo)) release((const void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_acq(mo)) acquire((const void*)a); if (self && is_rel(mo)) release((const void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { at_pre(a, sizeof(T), PC); if (self && is_acq(mo)) acquire((const void*)a); if (self && is_rel(mo)) release((const void*)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { at_pre(a, sizeof(T), PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (self) { if (is_acq(ok ? mo : fmo)) acquire((const void*)a); if (ok && is_rel(mo)) release((const void*)a); } return ok; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { at_pre(a, sizeof(T), PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (self) { if (is_acq(ok ? mo : fmo)) acquire((const void*)a); if (ok && is_rel(mo)) release((const void*)a); } return ok; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { at_pre(a, sizeof(T), PC); bool ok = __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (self) { if (is_acq(ok ? mo : fmo)) acquire((const void*)a); if (ok && is_rel(mo)) release((const void*)a); } return c; }
ATOMICS(uint8_t, 8) ATOMICS(uint16_t, 16) ATOMICS(uint32_t, 32) ATOMICS(uint64_t, 64)
void __tsan_atomic_thread_fence(int) { if (self) { acquire((void*)8); release((void*)8); } }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- OpenMP runtime
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { team_run(fn, data, n); }
void GOMP_barrier() { if (self) team_barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
static char omp_crit, omp_atom;
// outside a simulated section several threads may still exist: a recursive spin lock for all of them
static uint32_t ref_lock; static __thread int ref_depth;
static void ref_enter() { if (ref_depth++ == 0) while (__atomic_exchange_n(&ref_lock, 1, __ATOMIC_ACQUIRE)) raw_syscall(SYS_sched_yield); }
static void ref_leave() { if (--ref_depth == 0) __atomic_store_n(&ref_lock, 0, __ATOMIC_RELEASE); }
void GOMP_critical_start() { if (self) mtx_lock(&omp_crit, false); else ref_enter(); }
void GOMP_critical_end() { if (self) mtx_unlock(&omp_crit); else ref_leave(); }
void GOMP_critical_name_start(void** p) { if (self) mtx_lock(p, false); else ref_enter(); }
void GOMP_critical_name_end(void** p) { if (self) mtx_unlock(p); else ref_leave(); }
void GOMP_atomic_start() { if (self) mtx_lock(&omp_atom, false); else ref_enter(); }
void GOMP_atomic_end() { if (self) mtx_unlock(&omp_atom); else ref_leave(); }
bool GOMP_single_start() { if (!self || !cur_team()) return true; bool f; WorkShare* w = ws_get(f); preempt_at(8); if (w->single_taken) return false; w->single_taken = true; return true; }
void* GOMP_single_copy_start() { if (!self || !cur_team()) return nullptr; bool f; WorkShare* w = ws_get(f); if (!w->single_taken) { w->single_taken = true; return nullptr; } team_barrier(); return w->copy; }
void GOMP_single_copy_end(void* p) { if (!self || !cur_team()) return; ws_cur()->copy = p; team_barrier(); }
#define LOOPS(K) \
    bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* a, long* b) { return ws_start(s, e, i, c, a, b); } \
    bool GOMP_loop_##K##_next(long* a, long* b) { return ws_next(ws_now(), a, b); } \
    bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return ws_ustart(up, s, e, i, c, a, b); } \
    bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return ws_unext(ws_now(), a, b); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
LOOPS(ordered_static) LOOPS(ordered_dynamic) LOOPS(ordered_guided)
#define LOOPSR(K) \
    bool GOMP_loop_##K##_start(long s, long e, long i, long* a, long* b) { return ws_start(s, e, i, 1, a, b); } \
    bool GOMP_loop_##K##_next(long* a, long* b) { return ws_next(ws_now(), a, b); } \
    bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return ws_ustart(up, s, e, i, 1, a, b); } \
    bool GOMP_loop_ull_##K##_next(unsigned long long* a, unsigned long long* b) { return ws_unext(ws_now(), a, b); }
LOOPSR(runtime) LOOPSR(nonmonotonic_runtime) LOOPSR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { solo_end(); if (self) team_barrier(); }
void GOMP_loop_end_nowait() { solo_end(); }
bool GOMP_loop_end_cancel() { solo_end(); if (self) team_barrier(); return false; }
struct PLoop { void (*fn)(void*); void* data; long s, e, i, c; };
#define PLOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { \
    struct X { void (*fn)(void*); void* data; long s, e, i, c; } x{fn, data, s, e, i, c}; \
    team_run([](void* p) { X* q = (X*)p; \
        int sn = solo_n; bool f; WorkShare* w = ws_get(f); if (f) { w->next = q->s; w->end = q->e; w->incr = q->i; w->chunk = q->c; } \
        q->fn(q->data); if (!cur_team()) solo_n = sn; }, &x, n); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, i, 1, fl); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
static unsigned sect_next(WorkShare* w) { preempt_at(4); return w->sect < w->nsect ? (unsigned)++w->sect : 0; }
unsigned GOMP_sections_start(unsigned n) { bool f; WorkShare* w = ws_get(f); if (f) { w->sect = 0; w->nsect = (int)n; } return sect_next(w); }
unsigned GOMP_sections_next() { return sect_next(ws_now()); }
void GOMP_sections_end() { solo_end(); if (self) team_barrier(); }
void GOMP_sections_end_nowait() { solo_end(); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned cnt, unsigned)
{
    struct X { void (*fn)(void*); void* data; unsigned c; } x{fn, data, cnt};
    team_run([](void* p) { X* q = (X*)p; int sn = solo_n; bool f; WorkShare* w = ws_get(f); if (f) { w->sect = 0; w->nsect = (int)q->c; } q->fn(q->data); if (!cur_team()) solo_n = sn; }, &x, n);
}
// explicit tasks run at their creation point (an allowed schedule)
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*)
{
    if (cpy) { char* b = (char*)alloca(sz + al); char* a = (char*)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); }
    else fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskyield() {}
int omp_get_thread_num() { return self && self->team ? self->team_tid : 0; }
int omp_get_num_threads() { return self && self->team ? self->team->n : 1; }
int omp_get_max_threads() { if (!self) return 1; return omp_set_n > 0 ? omp_set_n : (g_cfg.omp_threads > 0 ? g_cfg.omp_threads : 4); }
int omp_get_num_procs() { return omp_get_max_threads(); }
int omp_in_parallel() { return self && self->level > 0; }
int omp_get_level() { return self ? self->level : 0; }
int omp_get_active_level() { return self ? self->level : 0; }
int omp_get_ancestor_thread_num(int) { return 0; }
int omp_get_team_size(int) { return self && self->team ? self->team->n : 1; }
void omp_set_num_threads(int n) { omp_set_n = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return g_cfg.omp_nested; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels() { return g_cfg.omp_nested ? 8 : 1; }
void omp_set_schedule(int, int) {}
int omp_get_thread_limit() { return 8; }
double omp_get_wtime() { return (double)simclock * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { sync_drop(l); }
void omp_destroy_lock(void* l) { sync_drop(l); }
void omp_set_lock(void* l) { if (self) mtx_lock(l, false); }
void omp_unset_lock(void* l) { if (self) mtx_unlock(l); }
int omp_test_lock(void* l) { return self ? mtx_try(l, false) : 1; }
void omp_init_nest_lock(void* l) { sync_drop(l); }
void omp_destroy_nest_lock(void* l) { sync_drop(l); }
void omp_set_nest_lock(void* l) { if (self) mtx_lock(l, true); }
void omp_unset_nest_lock(void* l) { if (self) mtx_unlock(l); }

// ---------------------------------------------------------------- pthreads
static void* thread_main(void* p)
{
    Thr* me = (Thr*)p;
    fwait(me);
    {   // the stack may be a recycled one: forget what its previous owner did to it
        RtScope s; pthread_attr_t at; void* b; size_t n;
        if (!pthread_getattr_np(pthread_self(), &at)) { pthread_attr_getstack(&at, &b, &n); pthread_attr_destroy(&at); shadow_clear((uintptr_t)b, n); }
    }
    self = me;
    void* r = nullptr;
    r = me->start(me->arg);
    me->ret = r;
    me->st = DONE;
    finish_thread(me);
    self = nullptr;
    return r;
}
int pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    next_sym(real_create, "pthread_create");
    if (!self && !in_rt) { // the serial reference: a new thread runs to its end (or until it waits for its creator) before its creator goes on
        struct S { void* (*fn)(void*); void* arg; uint32_t done; int refs; };
        S* x = (S*)mmap(nullptr, sizeof(S), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        *x = S{fn, arg, 0, 2};
        auto drop = [](S* s) { if (__atomic_sub_fetch(&s->refs, 1, __ATOMIC_SEQ_CST) == 0) munmap(s, sizeof(S)); };
        int rc = real_create(t, at, [](void* p) -> void* {
            S* s = (S*)p; void* v = s->fn(s->arg);
            __atomic_store_n(&s->done, 1, __ATOMIC_SEQ_CST); raw_syscall(SYS_futex, (long)&s->done, FUTEX_WAKE_PRIVATE, 1);
            if (__atomic_sub_fetch(&s->refs, 1, __ATOMIC_SEQ_CST) == 0) munmap(s, sizeof(S));
            return v; }, x);
        if (rc) { munmap(x, sizeof(S)); return rc; }
        struct timespec ts{0, 300000000};
        if (!__atomic_load_n(&x->done, __ATOMIC_SEQ_CST)) raw_syscall(SYS_futex, (long)&x->done, FUTEX_WAIT_PRIVATE, 0, (long)&ts);
        drop(x);
        return 0;
    }
    if (!self || in_rt) return real_create(t, at, fn, arg);
    preempt_at(9);
    if (g_cfg.thread_faults && decide_p(K_FAULT_THREAD, 2, 1, 6)) { fault("thread-create-failure"); return EAGAIN; }
    // the slot of a joined thread whose end this thread has seen: the new thread really is ordered after it
    Thr* old = nullptr;
    for (int i = 1; i < nthr && !old; ++i) if (!thr[i].pool && thr[i].joined && thr[i].st == DONE && self->vc[i] >= thr[i].vc[i]) old = &thr[i];
    if (!old && nthr >= MAXT - 2) { fault("thread-limit"); return EAGAIN; }
    RtScope r;
    Thr* x = old;
    if (!x) x = new_thr(false);
    else { x->joined = x->detached = false; x->st = FREE; x->baton = 0; x->depth = 0; x->wait_obj = nullptr; x->wake_ns = 0; x->timed_out = false; x->job = nullptr; x->team = nullptr; x->team_tid = x->level = x->ws_idx = 0; x->ret = nullptr; }
    x->start = fn; x->arg = arg;
    make_runnable(x);
    int rc = real_create(&x->real, at, thread_main, x);
    if (rc) violation("internal: real pthread_create failed");
    *t = x->real;
    --in_rt; preempt_at(9); ++in_rt;
    return 0;
}
int pthread_join(pthread_t t, void** ret)
{
    next_sym(real_join, "pthread_join");
    if (!self || in_rt) return real_join(t, ret);
    Thr* x = nullptr;
    for (int i = 0; i < nthr; ++i) if (!thr[i].pool && i && !thr[i].joined && thr[i].st != FREE && pthread_equal(thr[i].real, t)) x = &thr[i];
    if (!x) return real_join(t, ret);
    preempt_at(10);
    while (x->st != DONE) block_self(x);
    vc_join(self->vc, x->vc);
    x->joined = true;
    return real_join(t, ret);
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*);
    if (!self || in_rt) { next_sym(real, "pthread_mutex_lock"); return real(m); }
    mtx_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*);
    if (!self || in_rt) { next_sym(real, "pthread_mutex_trylock"); return real(m); }
    return mtx_try(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    static int (*real)(pthread_mutex_t*);
    if (!self || in_rt) { next_sym(real, "pthread_mutex_unlock"); return real(m); }
    mtx_unlock(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) { sync_drop(m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
static uint64_t ts_ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t wake)
{
    Sync* s = sync_of(m);
    int cnt = s->count; s->count = 1;
    // enqueue before unlocking: no lost wake-up
    bool spur = decide_p(K_FAULT_SPUR, 2, 1, 32);
    release(m); s->owner = -1; wake_all(m);
    bool to = false;
    if (spur) { fault("spurious-wakeup"); preempt_at(11); }
    else { block_self(c, wake); to = self->timed_out; }
    while (s->owner != -1) block_self(m);
    s->owner = self->id; s->count = cnt;
    acquire(m);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    static int (*real)(pthread_cond_t*, pthread_mutex_t*);
    if (!self || in_rt) { next_sym(real, "pthread_cond_wait"); return real(c, m); }
    return cond_wait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    static int (*real)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    if (!self || in_rt) { next_sym(real, "pthread_cond_timedwait"); return real(c, m, t); }
    uint64_t a = ts_ns(t); return cond_wait(c, m, a > realoff ? std::max<uint64_t>(a - realoff, simclock + 1) : simclock + 1);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    static int (*real)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    if (!self || in_rt) { next_sym(real, "pthread_cond_clockwait"); return real(c, m, k, t); }
    if (k == CLOCK_REALTIME) return pthread_cond_timedwait(c, m, t);
    return cond_wait(c, m, std::max<uint64_t>(ts_ns(t), simclock + 1));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    static int (*real)(pthread_cond_t*);
    if (!self || in_rt) { next_sym(real, "pthread_cond_signal"); return real(c); }
    preempt_at(12); wake_all(c, 1); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    static int (*real)(pthread_cond_t*);
    if (!self || in_rt) { next_sym(real, "pthread_cond_broadcast"); return real(c); }
    preempt_at(12); wake_all(c); return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
// reader/writer locks
static int rw_rd(const void* l, bool tr)
{
    preempt_at(5); Sync* s = sync_of(l);
    while (s->owner != -1) { if (tr) return EBUSY; block_self(l); }
    s->readers++; acquire(l); return 0;
}
static int rw_wr(const void* l, bool tr)
{
    preempt_at(5); Sync* s = sync_of(l);
    while (s->owner != -1 || s->readers > 0) { if (tr) return EBUSY; block_self(l); }
    s->owner = self->id; acquire(l); return 0;
}
#define RWREAL(name) static int (*real)(pthread_rwlock_t*); if (!self || in_rt) { next_sym(real, name); return real(l); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { RWREAL("pthread_rwlock_rdlock") return rw_rd(l, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { RWREAL("pthread_rwlock_wrlock") return rw_wr(l, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { RWREAL("pthread_rwlock_tryrdlock") return rw_rd(l, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { RWREAL("pthread_rwlock_trywrlock") return rw_wr(l, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    RWREAL("pthread_rwlock_unlock")
    Sync* s = sync_of(l); release(l);
    if (s->owner == self->id) s->owner = -1; else if (s->readers > 0) s->readers--;
    wake_all(l); preempt_at(6); return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l) { sync_drop(l); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)())
{
    static int (*real)(pthread_once_t*, void (*)());
    if (!self || in_rt) { next_sym(real, "pthread_once"); return real(o, fn); }
    preempt_at(13);
    Sync* s = sync_of(o);
    if (*(volatile int*)o == 2 && s->state == 0) return 0;     // done before the simulation started
    for (;;) {
        if (s->state == 2 && *(volatile int*)o != 2) s->state = 0;    // a new flag where an old one was
        if (s->state == 2) { acquire(o); return 0; }
        if (s->state == 0) break;
        block_self(o);
    }
    s->state = 1;
    try { fn(); } catch (...) { s = sync_of(o); s->state = 0; wake_all(o); throw; }
    s = sync_of(o);
    s->state = 2; *(volatile int*)o = 2;
    release(o); wake_all(o);
    return 0;
}
// function-local statics
int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (!self || in_rt) { if (b[0]) return 0; b[1] = 1; return 1; }
    preempt_at(14);
    Sync* s = sync_of(g);
    while (!b[0] && s->state == 1) block_self(g);
    if (b[0]) { acquire(g); return 0; }
    s->state = 1;
    return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard* g) noexcept
{
    volatile uint8_t* b = (volatile uint8_t*)g;
    if (self && !in_rt) { Sync* s = sync_of(g); release(g); s->state = 2; wake_all(g); }
    b[0] = 1;
}
void __cxa_guard_abort(__cxxabiv1::__guard* g) noexcept
{
    if (self && !in_rt) { Sync* s = sync_of(g); s->state = 0; wake_all(g); }
}

// ---------------------------------------------------------------- futex, sleep, clock, entropy
long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && self && !in_rt) {
        int op = (int)b & 0x7f;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            preempt_at(15);
            if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
            uint64_t wake = 0;
            if (d) { uint64_t t = ts_ns((const struct timespec*)d); wake = op == FUTEX_WAIT ? simclock + t : ((b & FUTEX_CLOCK_REALTIME) ? (t > realoff ? t - realoff : 1) : t); if (wake <= simclock) wake = simclock + 1; }
            if (decide_p(K_FAULT_SPUR, 2, 1, 32)) { fault("spurious-wakeup"); preempt_at(15); return 0; }
            block_self((void*)a, wake);
            if (self->timed_out) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { preempt_at(16); return wake_all((void*)a, (int)c); }
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static void sim_sleep(uint64_t ns) { block_self((void*)2, simclock + (ns ? ns : 1)); }
int nanosleep(const struct timespec* t, struct timespec* rem)
{
    if (!self || in_rt) { long r = raw_syscall(SYS_nanosleep, (long)t, (long)rem); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    sim_sleep(ts_ns(t)); return 0;
}
int clock_nanosleep(clockid_t, int fl, const struct timespec* t, struct timespec* rem)
{
    if (!self || in_rt) { return (int)-raw_syscall(SYS_nanosleep, (long)t, (long)rem); }
    uint64_t ns = ts_ns(t); if (fl & TIMER_ABSTIME) ns = ns > simclock ? ns - simclock : 1;
    sim_sleep(ns); return 0;
}
int usleep(unsigned us) { struct timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
int sched_yield() { if (!self || in_rt) { raw_syscall(SYS_sched_yield); return 0; } preempt_at(17); return 0; }
int clock_gettime(clockid_t k, struct timespec* t)
{
    if (!self || in_rt) { long r = raw_syscall(SYS_clock_gettime, k, (long)t); if (r < 0) { errno = (int)-r; return -1; } return 0; }
    simclock += 1000 + (g_cfg.clock_faults ? 0 : 0);
    if (g_cfg.clock_faults) {
        // real time moves on (anything up to two seconds), and the wall clock may be stepped either way
        static const uint64_t adv[] = {0, 50, 1000000ull, 20000000ull, 2000000000ull};
        simclock += adv[decide(K_FAULT_CLOCK, 5)];
        uint32_t j = decide_p(K_FAULT_CLOCK, 7, 1, 3);
        static const int64_t jump[] = {0, -3600000000000ll, 3600000000000ll, -1000000ll, 1000000ll, -86400000000000ll * 365, 86400000000000ll * 365};
        if (j) { fault(jump[j] < 0 ? "clock-step-back" : "clock-step-forward"); realoff += (uint64_t)jump[j]; }
    }
    uint64_t v = k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE ? simclock + realoff : simclock;
    t->tv_sec = (time_t)(v / 1000000000ull); t->tv_nsec = (long)(v % 1000000000ull);
    return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int system(const char*) { if (self) { fault("system-call-made"); if (rec) violation("the library ran a shell command"); } return 0; }

// ---------------------------------------------------------------- malloc family
void* malloc(size_t n) { return heap_alloc(n); }
void free(void* p) { heap_free(p, PC); }
void* calloc(size_t a, size_t b)
{
    size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = heap_alloc(n); if (p) __real_memset(p, 0, n); return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return heap_alloc(n);
    if (!n) { heap_free(p, PC); return nullptr; }
    Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
    size_t o = h->size;
    void* q = heap_alloc(n); if (!q) return nullptr;
    __real_memcpy(q, p, o < n ? o : n);
    heap_free(p, PC);
    return q;
}
void* memalign(size_t a, size_t n) { return heap_alloc(n, a < 16 ? 16 : a); }
void* aligned_alloc(size_t a, size_t n) { return heap_alloc(n, a < 16 ? 16 : a); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = heap_alloc(n, a < 16 ? 16 : a); if (!p) return ENOMEM; *o = p; return 0; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)((uintptr_t)p - sizeof(Hdr)))->size : 0; }
} // extern "C"

// entropy: std::random_device
void std::random_device::_M_init(const std::string&) {}
void std::random_device::_M_fini() {}
unsigned int std::random_device::_M_getval()
{
    static uint64_t n = 0;
    if (!rec) return 42;
    return (unsigned)(decide(K_RANDDEV, 0xffffffffu) ^ (uint32_t)(++n * 2654435761u));
}
