// Supervisor: forks one process per simulated run, searches seeds in parallel, re-runs for determinism, minimises a
// failing run's decisions, writes and replays replay files.
#include "rt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
using namespace sim;
namespace sim { void rt_mark_ended(); }

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template <class T> static T* shm(size_t n = 1) { void* p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(4); } return (T*)p; }

static int cpu_guard = 60;
static void child(RunRec* r, bool verbose)
{
    if (!verbose) { int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1); dup2(n, 2); }
    static char outbuf[8192]; setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);   // stdio would allocate it in the middle of a run
    struct itimerval it{}; it.it_value.tv_sec = cpu_guard; 
    rt_begin_run(r);
    setitimer(ITIMER_PROF, &it, nullptr);
    alarm(cpu_guard * 10);
    fs_reset();
    randomize_config();
    try { scenarios()[r->scenario].fn(); }
    catch (const std::exception& e) { violation(std::string("exception escaped the scenario: ") + e.what()); }
    catch (...) { violation("unknown exception escaped the scenario"); }
    rt_end_run_ok();
}
static void eval(RunRec* r, bool verbose = false)
{
    r->status = 0; r->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) { child(r, verbose); _exit(9); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == 0) {
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { r->status = 2; snprintf(r->msg, sizeof r->msg, "crash: signal %d", WTERMSIG(st)); }
        else if (WIFEXITED(st)) { r->status = 2; snprintf(r->msg, sizeof r->msg, "crash: the process exited with code %d", WEXITSTATUS(st)); }
        else { r->status = 3; snprintf(r->msg, sizeof r->msg, "internal: run killed"); }
    }
}
static std::string cls(const char* m)
{
    std::string o;
    for (const char* p = m; *p; ++p) { if (*p == '[' || *p == '|' || (*p >= '0' && *p <= '9')) break; o += *p; }
    return o;
}
struct Res { uint64_t ilv, cov, dig, steps, sw, ns, acc; int scn; int st; };
struct Viol { uint64_t seed; int scn, fill, kind; char msg[6144]; uint64_t idx; bool skip = false; };   // kind 0: violation, 1: differs by fill
struct Shared {
    volatile uint64_t next; volatile int stop; volatile int nviol; volatile int nerr;
    volatile uint64_t reruns, nondet, fillruns, decisions, overflow, knownhits[64];
    char errmsg[512], nondetmsg[512];
    Viol v[64];
};
struct WStat { struct { char name[28]; uint64_t n; } f[NFAULT]; uint32_t nf; uint32_t maxthr; };
struct Known { std::string scn, msg, label; };

static uint64_t mix(uint64_t a, uint64_t b) { uint64_t h = a * 0x9E3779B97F4A7C15ull + b; h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32; return h; }
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

static bool write_replay(const char* path, const char* prop, RunRec* r, const std::vector<Dec>& d, bool dec_mode, int kind, const std::string& msg)
{
    FILE* f = fopen(path, "w"); if (!f) return false;
    static const char* kn[] = {"schedule", "chunk", "task", "team", "fault-io", "fault-alloc", "fault-thread", "fault-clock", "fault-spurious", "entropy", "crash", "misc"};
    fprintf(f, "property %s\nscenario %s\nseed %llu\nfill %d\nkind %d\nmode %s\nmessage %s\ndecisions %zu\n", prop, scenarios()[r->scenario].name, (unsigned long long)r->seed, r->fill, kind, dec_mode ? "decisions" : "seed", msg.c_str(), d.size());
    for (auto& x : d) fprintf(f, "%llu %u %s\n", (unsigned long long)x.pos, x.val, kn[x.kind < K_MAX ? x.kind : K_MAX - 1]);
    if (r->n_note) fprintf(f, "notes\n%s", r->notes);
    fclose(f); return true;
}
static int replay(const char* path, RunRec* r, RunRec* r2, bool verbose, std::string& msg)
{
    FILE* f = fopen(path, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", path); return 2; }
    char line[16384], name[256] = "", mode[32] = ""; unsigned long long seed = 0; int fill = 0, kind = 0; size_t n = 0;
    r->n_in = 0; r->scenario = -1;
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "scenario %255s", name) == 1) { for (size_t i = 0; i < scenarios().size(); ++i) if (!strcmp(scenarios()[i].name, name)) r->scenario = (int)i; }
        else if (sscanf(line, "seed %llu", &seed) == 1) {}
        else if (sscanf(line, "fill %d", &fill) == 1) {}
        else if (sscanf(line, "kind %d", &kind) == 1) {}
        else if (sscanf(line, "mode %31s", mode) == 1) {}
        else if (!strncmp(line, "message ", 8)) {}
        else if (sscanf(line, "decisions %zu", &n) == 1) {
            for (size_t i = 0; i < n && fgets(line, sizeof line, f); ++i) { unsigned long long p; unsigned v; if (sscanf(line, "%llu %u", &p, &v) == 2 && r->n_in < (uint32_t)MAXDEC) { r->in_dec[r->n_in].pos = p; r->in_dec[r->n_in].val = v; r->n_in++; } }
            break;
        }
    }
    fclose(f);
    if (r->scenario < 0) { fprintf(stderr, "unknown scenario %s\n", name); return 2; }
    r->seed = seed; r->fill = fill; r->replay = !strcmp(mode, "decisions");
    eval(r, verbose);
    if (r->status == 2) { msg = r->msg; return 1; }
    if (kind == 1) {
        memcpy(r2, r, sizeof(RunRec)); r2->fill = fill ^ 0xFF; eval(r2);
        if (r2->status == 2) { msg = r2->msg; return 1; }
        if (r2->digest != r->digest) { msg = "observable result depends on uninitialised memory"; return 1; }
    }
    return 0;
}

int main(int argc, char** argv)
{
    std::string prop = "X", out, rout, only, rep, knownf; uint64_t seed = 1, runs = 1000; double tmax = 600; int jobs = 8; bool verbose = false, list = false; uint64_t one = 0; bool haveone = false; int fill = 0xA5;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--property") prop = nxt(); else if (a == "--seed") seed = strtoull(nxt().c_str(), 0, 10); else if (a == "--runs") runs = strtoull(nxt().c_str(), 0, 10);
        else if (a == "--time") tmax = atof(nxt().c_str()); else if (a == "--jobs") jobs = atoi(nxt().c_str()); else if (a == "--out") out = nxt(); else if (a == "--replay-out") rout = nxt();
        else if (a == "--scenario") only = nxt(); else if (a == "--replay") rep = nxt(); else if (a == "--verbose") verbose = true; else if (a == "--list") list = true;
        else if (a == "--one") { one = strtoull(nxt().c_str(), 0, 10); haveone = true; } else if (a == "--fill") fill = atoi(nxt().c_str()); else if (a == "--known") knownf = nxt();
        else if (a == "--cpu-guard") cpu_guard = atoi(nxt().c_str());
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 4; }
    }
    auto& sc = scenarios();
    std::sort(sc.begin(), sc.end(), [](const Scenario& a, const Scenario& b) { return strcmp(a.name, b.name) < 0; });
    if (list) { for (auto& s : sc) printf("%s %d\n", s.name, s.weight); return 0; }
    RunRec* main_rec = shm<RunRec>(); RunRec* main_rec2 = shm<RunRec>();
    if (!rep.empty()) {
        std::string m; int rc = replay(rep.c_str(), main_rec, main_rec2, verbose, m);
        if (rc == 1) printf("REPRODUCED %s\nilv=%llx steps=%llu\n%s", m.c_str(), (unsigned long long)main_rec->ilv_hash, (unsigned long long)main_rec->steps, main_rec->notes); else if (rc == 0) printf("not reproduced\n");
        return rc;
    }
    std::vector<int> order;
    for (size_t i = 0; i < sc.size(); ++i) if (only.empty() || std::string(sc[i].name).find(only) != std::string::npos) for (int k = 0; k < sc[i].weight; ++k) order.push_back((int)i);
    if (order.empty()) { fprintf(stderr, "no scenario\n"); return 4; }
    // spread weighted scenarios
    { std::vector<int> o2; std::map<int, int> used; size_t n = order.size(); std::vector<std::pair<double, int>> k; std::map<int, int> cnt, tot; for (int s : order) tot[s]++; for (int s : order) { k.push_back({(cnt[s] + 0.5) / tot[s], s}); cnt[s]++; } std::sort(k.begin(), k.end()); for (auto& x : k) o2.push_back(x.second); order = o2; (void)n; }
    if (haveone) {
        RunRec* r = main_rec; r->seed = one; r->scenario = order[0]; r->fill = fill; r->replay = 0; r->n_in = 0;
        eval(r, verbose);
        printf("status=%d digest=%llx ilv=%llx event=%llx steps=%llu switches=%llu accesses=%llu decisions=%llu dec=%u simns=%llu threads=%u\nmsg: %s\nnotes:\n%s", r->status, (unsigned long long)r->digest, (unsigned long long)r->ilv_hash, (unsigned long long)r->event_hash, (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->accesses, (unsigned long long)r->decisions, r->n_dec, (unsigned long long)r->sim_ns, r->threads, r->msg, r->notes);
        for (uint32_t i = 0; i < r->n_fault; ++i) printf("fault %s %u\n", r->fault[i].name, r->fault[i].n);
        return r->status == 1 ? 0 : 1;
    }
    std::vector<Known> known;
    if (!knownf.empty()) { FILE* f = fopen(knownf.c_str(), "r"); char l[4096]; if (f) { while (fgets(l, sizeof l, f)) { std::string s = l; while (!s.empty() && s.back() == '\n') s.pop_back(); auto a = s.find('\t'), b = a == std::string::npos ? a : s.find('\t', a + 1); if (b != std::string::npos) known.push_back({s.substr(0, a), s.substr(a + 1, b - a - 1), s.substr(b + 1)}); } fclose(f); } }

    double t0 = now_s();
    Shared* S = shm<Shared>(); Res* R = shm<Res>(runs + 1); uint8_t* pcbits = shm<uint8_t>(1 << 20); WStat* W = shm<WStat>(jobs); RunRec* recs = shm<RunRec>(jobs); RunRec* recs2 = shm<RunRec>(jobs);
    std::vector<pid_t> ws;
    for (int w = 0; w < jobs; ++w) {
        pid_t p = fork();
        if (p) { ws.push_back(p); continue; }
        RunRec* r = &recs[w]; RunRec* q = &recs2[w]; WStat& st = W[w];
        for (;;) {
            uint64_t idx = __atomic_fetch_add(&S->next, 1, __ATOMIC_SEQ_CST);
            if (idx >= runs || S->stop || now_s() - t0 > tmax) break;
            int s = order[idx % order.size()];
            uint64_t nh = 5381; for (const char* c = sc[s].name; *c; ++c) nh = nh * 33 + (unsigned char)*c;
            r->seed = mix(mix(seed, nh), idx) | 1; r->scenario = s; r->fill = (idx & 1) ? 0x5A : 0xA5; r->replay = 0; r->n_in = 0;
            eval(r);
            Res& x = R[idx]; x.ilv = r->ilv_hash; x.cov = r->cover_hash; x.dig = r->digest; x.steps = r->steps; x.sw = r->switches; x.ns = r->sim_ns; x.acc = r->accesses; x.scn = s; x.st = r->status;
            __atomic_fetch_add(&S->decisions, r->decisions, __ATOMIC_RELAXED); if (r->dec_overflow) __atomic_fetch_add(&S->overflow, 1, __ATOMIC_RELAXED);
            for (uint32_t i = 0; i < r->n_fault; ++i) { uint32_t k = 0; for (; k < st.nf; ++k) if (!strcmp(st.f[k].name, r->fault[i].name)) break; if (k == st.nf && st.nf < (uint32_t)NFAULT) { memcpy(st.f[k].name, r->fault[i].name, 28); st.nf++; } if (k < st.nf) st.f[k].n += r->fault[i].n; }
            for (uint32_t i = 0; i < r->n_pc && i < 512; ++i) { uint32_t h = (r->pcs[i] * 2654435761u) >> 9; pcbits[h >> 3] |= 1 << (h & 7); }
            if (r->threads > st.maxthr) st.maxthr = r->threads;
            int kind = 0; bool bad = r->status == 2;
            if (r->status == 3) { if (!__atomic_fetch_add(&S->nerr, 1, __ATOMIC_SEQ_CST)) snprintf(S->errmsg, sizeof S->errmsg, "%s seed %llu: %s", sc[s].name, (unsigned long long)r->seed, r->msg); continue; }
            if (!bad && idx / order.size() % 8 == 3) {         // same seed again, other fill pattern: output must not depend on it
                q->seed = r->seed; q->scenario = s; q->fill = r->fill ^ 0xFF; q->replay = 0; q->n_in = 0; eval(q);
                __atomic_fetch_add(&S->fillruns, 1, __ATOMIC_RELAXED);
                if (q->status == 2) { bad = true; memcpy(r->msg, q->msg, sizeof r->msg); r->fill = q->fill; }
                else if (q->status == 1 && q->digest != r->digest) { bad = true; kind = 1; snprintf(r->msg, sizeof r->msg, "observable result depends on uninitialised memory"); }
            } else if (!bad && idx / order.size() % 8 == 6) { // same seed again: must be the identical execution
                q->seed = r->seed; q->scenario = s; q->fill = r->fill; q->replay = 0; q->n_in = 0; eval(q);
                __atomic_fetch_add(&S->reruns, 1, __ATOMIC_RELAXED);
                if (q->status != r->status || q->digest != r->digest || q->ilv_hash != r->ilv_hash || q->event_hash != r->event_hash || q->steps != r->steps || q->decisions != r->decisions)
                    if (!__atomic_fetch_add(&S->nondet, 1, __ATOMIC_SEQ_CST)) snprintf(S->nondetmsg, sizeof S->nondetmsg, "%s seed %llu: status %d/%d digest %llx/%llx steps %llu/%llu", sc[s].name, (unsigned long long)r->seed, r->status, q->status, (unsigned long long)r->digest, (unsigned long long)q->digest, (unsigned long long)r->steps, (unsigned long long)q->steps);
            }
            if (bad) {
                bool kn = false;
                for (size_t i = 0; i < known.size() && i < 64; ++i) if (strstr(sc[s].name, known[i].scn.c_str()) && strstr(r->msg, known[i].msg.c_str())) { __atomic_fetch_add(&S->knownhits[i], 1, __ATOMIC_RELAXED); kn = true; break; }
                if (kn) continue;
                int k = __atomic_fetch_add(&S->nviol, 1, __ATOMIC_SEQ_CST);
                if (k < 64) { Viol& v = S->v[k]; v.seed = r->seed; v.scn = s; v.fill = r->fill; v.kind = kind; memcpy(v.msg, r->msg, sizeof v.msg); v.idx = idx; }
                S->stop = 1;
            }
        }
        _exit(0);
    }
    for (pid_t p : ws) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    double t1 = now_s();
    uint64_t done = 0, steps = 0, sw = 0, ns = 0, acc = 0; std::unordered_set<uint64_t> ilv, cov, dig; std::map<std::string, uint64_t> faults, per; std::map<std::string, std::unordered_set<uint64_t>> ilvper;
    for (uint64_t i = 0; i < runs; ++i) if (R[i].st) { ++done; steps += R[i].steps; sw += R[i].sw; ns += R[i].ns; acc += R[i].acc; if (R[i].sw || R[i].cov) ilv.insert(fnv(R[i].ilv, fnv(R[i].cov, (uint64_t)R[i].scn))); dig.insert(R[i].dig); per[sc[R[i].scn].name]++; }
    for (int w = 0; w < jobs; ++w) for (uint32_t k = 0; k < W[w].nf; ++k) faults[W[w].f[k].name] += W[w].f[k].n;
    uint64_t npc = 0; for (size_t i = 0; i < (1 << 20); ++i) npc += __builtin_popcount(pcbits[i]);
    uint32_t mt = 0; for (int w = 0; w < jobs; ++w) mt = std::max(mt, W[w].maxthr);

    int rc = 0; std::string vmsg, vscn, gate; uint64_t vseed = 0; size_t ndec0 = 0, ndec1 = 0;
    if (S->nviol) {
        pick: int best = -1; for (int i = 0; i < std::min<int>((int)S->nviol, 64); ++i) if (!S->v[i].skip && (best < 0 || S->v[i].idx < S->v[best].idx)) best = i;
        Viol& v = S->v[best]; vseed = v.seed; vscn = sc[v.scn].name; vmsg = v.msg;
        RunRec* r = main_rec; RunRec* q = main_rec2; std::string want = cls(v.msg);
        auto test = [&](const std::vector<Dec>* d) {
            r->seed = v.seed; r->scenario = v.scn; r->fill = v.fill; r->replay = d ? 1 : 0; r->n_in = 0;
            if (d) { r->n_in = (uint32_t)d->size(); memcpy(r->in_dec, d->data(), d->size() * sizeof(Dec)); }
            eval(r);
            if (v.kind == 0) return r->status == 2 && cls(r->msg) == want;
            if (r->status != 1) return false;
            q->seed = v.seed; q->scenario = v.scn; q->fill = v.fill ^ 0xFF; q->replay = r->replay; q->n_in = r->n_in; memcpy(q->in_dec, r->in_dec, r->n_in * sizeof(Dec)); eval(q);
            return q->status == 1 && q->digest != r->digest;
        };
        bool again = test(nullptr); uint64_t h1 = r->ilv_hash; bool again2 = test(nullptr); bool same = h1 == r->ilv_hash;
        if ((!again || !again2 || !same) && !S->v[best].skip) { // another worker may have found one that does
            S->v[best].skip = true; bool more = false; for (int i = 0; i < std::min<int>((int)S->nviol, 64); ++i) more = more || !S->v[i].skip;
            if (more) goto pick;
        }
        if (!again || !again2 || !same) { gate = "violation did not repeat from its seed"; rc = 3; }
        else {
            bool dm = false; std::vector<Dec> d;
            if (!r->dec_overflow) { d.assign(r->dec, r->dec + r->n_dec); ndec0 = d.size(); std::vector<Dec> full = d; dm = test(&full); }
            if (dm) {
                double tm = now_s(); int evals = 0;
                auto ok = [&](const std::vector<Dec>& c) { ++evals; return test(&c); };
                std::vector<Dec> none; if (ok(none)) d.clear();
                size_t gran = 2;
                while (d.size() > 1 && now_s() - tm < 45 && evals < 1500) {
                    size_t n = d.size(), ch = (n + gran - 1) / gran; bool red = false;
                    for (size_t i = 0; i < n && now_s() - tm < 45; i += ch) {
                        std::vector<Dec> c(d.begin(), d.begin() + i); c.insert(c.end(), d.begin() + std::min(n, i + ch), d.end());
                        if (ok(c)) { d = c; red = true; break; }
                    }
                    if (red) gran = std::max<size_t>(2, gran - 1); else if (ch == 1) break; else gran = std::min(n, gran * 2);
                }
                if (d.size() == 1) { std::vector<Dec> c; if (ok(c)) d = c; }
                if (!test(&d)) { d.clear(); dm = false; test(nullptr); }
            } else { d.clear(); test(nullptr); }
            ndec1 = d.size();
            if (v.kind == 0) vmsg = r->msg;
            if (!rout.empty()) {
                write_replay(rout.c_str(), prop.c_str(), r, d, dm, v.kind, vmsg);
                pid_t p = fork();
                if (!p) { int n = open("/dev/null", O_RDWR); dup2(n, 1); execl("/proc/self/exe", "check", "--replay", rout.c_str(), (char*)0); _exit(9); }
                int st; waitpid(p, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { gate = "replay file did not reproduce in a fresh process"; rc = 3; } else rc = 1;
            } else rc = 1;
        }
    }
    if (!rc && S->nerr) rc = 3;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\"runs\":%llu,\"planned\":%llu,\"wall_s\":%.3f,\"steps\":%llu,\"accesses\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"decisions\":%llu,\"distinct_interleavings\":%zu,\"distinct_outputs\":%zu,\"preemption_sites\":%llu,\"max_threads\":%u,\"reruns_identical\":%llu,\"nondeterministic\":%llu,\"nondet_sample\":\"%s\",\"fill_reruns\":%llu,\"decision_log_overflow\":%llu,\"errors\":%d,\"error_sample\":\"%s\",\"violations\":%d,",
            (unsigned long long)done, (unsigned long long)runs, t1 - t0, (unsigned long long)steps, (unsigned long long)acc, (unsigned long long)sw, (unsigned long long)ns, (unsigned long long)S->decisions, ilv.size(), dig.size(), (unsigned long long)npc, mt, (unsigned long long)(S->reruns - S->nondet), (unsigned long long)S->nondet, jesc(S->nondetmsg).c_str(), (unsigned long long)S->fillruns, (unsigned long long)S->overflow, S->nerr, jesc(S->errmsg).c_str(), S->nviol);
    fprintf(f, "\"faults\":{"); bool c = false; for (auto& x : faults) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", x.first.c_str(), (unsigned long long)x.second); c = true; }
    fprintf(f, "},\"scenarios\":{"); c = false; for (auto& x : per) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", x.first.c_str(), (unsigned long long)x.second); c = true; }
    fprintf(f, "},\"known\":["); c = false; for (size_t i = 0; i < known.size() && i < 64; ++i) { fprintf(f, "%s{\"label\":\"%s\",\"hits\":%llu}", c ? "," : "", jesc(known[i].label).c_str(), (unsigned long long)S->knownhits[i]); c = true; }
    fprintf(f, "],\"samples\":["); c = false; for (uint64_t i = 0; i < std::min<uint64_t>(runs, 4); ++i) if (R[i].st) { fprintf(f, "%s{\"scenario\":\"%s\",\"steps\":%llu,\"switches\":%llu,\"interleaving\":\"%llx\",\"output\":\"%llx\"}", c ? "," : "", sc[R[i].scn].name, (unsigned long long)R[i].steps, (unsigned long long)R[i].sw, (unsigned long long)R[i].ilv, (unsigned long long)R[i].dig); c = true; }
    fprintf(f, "],\"violation\":{\"scenario\":\"%s\",\"seed\":\"%llu\",\"message\":\"%s\",\"gate\":\"%s\",\"decisions\":%zu,\"minimised\":%zu},\"rc\":%d}\n", vscn.c_str(), (unsigned long long)vseed, jesc(vmsg).c_str(), gate.c_str(), ndec0, ndec1, rc);
    if (f != stdout) fclose(f);
    return rc;
}
