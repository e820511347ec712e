// C10: a writer that reports success has written the whole image.
#include "files.h"
using namespace files;
namespace {
enum Fault { NONE, FULL, EIOW, CLOSE, OPEN, MIXED, MEM };
void write_case(int f, int fault, bool overwrite)
{
    auto& g = sim::in(); sim::fs_reset(); Pic p = random_pic(f); int how = (int)g.below(6), prec = (int)g.below(5); std::string base = "/simfs/out/picture", path = path_of(f, base);
    sim::fs_put("/simfs/out/keep.txt", "keep"); if (overwrite) { Pic old = random_pic(f); if (f == TEX) sim::fs_put(path, latex(old)); else sim::fs_put(path, encode(f, old)); }
    uint64_t size_guess = 60 + p.v.size() * (f == BMP ? 1 : f == TEX ? 25 : f == DBMP || f == HSVF ? 9 : 4); auto& c = sim::fs(); c.soft = g.chance(1, 2);
    if (fault == FULL || fault == MIXED) { std::string old; sim::fs_get(path, old); c.capacity = sim::fs_used() - old.size() + g.below(size_guess + size_guess / 3) + 1; }
    if (fault == EIOW || fault == MIXED) c.p_write_err = 20 + (uint32_t)g.below(500);
    if (fault == CLOSE || fault == MIXED) c.p_close_err = 300;
    if (fault == OPEN || fault == MIXED) c.p_open_err = 200;
    unsigned nth = fault == MEM ? 1 + (unsigned)g.below(24) : 0; bool sticky = g.chance(1, 4);
    bool ok = false, threw = false; int64_t before = 0, after = 0; Image<RGB> warm(size_t(1), size_t(1));
    sim::run([&] {
        before = sim::live_blocks();
        try { sim::AllocGuard ag(nth, sticky); ok = lib_write(f, base, p, how, prec); } catch (const std::exception&) { threw = true; }
        after = sim::live_blocks();
    });
    uint32_t hard = sim::fs_hard_faults(); bool mem = fault == MEM && sim::alloc_fault_fired(); int open = sim::fs_open_handles(); std::string d; bool exists = sim::fs_get(path, d), good = exists && file_holds(f, d, p, prec);
    std::string what = std::string(fmt_name(f)) + " " + p.size();
    sim::cover((uint64_t)f * 1000 + (uint64_t)fault * 100 + (ok ? 50 : 0) + (hard ? 20 : 0) + (good ? 10 : 0) + std::min<uint64_t>(9, d.size() / 512));
    if (ok && !good) sim::violation("writer reported success for an incomplete or wrong " + what + " file (" + (exists ? std::to_string(d.size()) + " bytes" : "no file") + ", " + std::to_string(hard) + " injected faults)");
    if (!ok && !hard && !mem) sim::violation("writer reported failure of a " + what + " file although nothing failed");
    if (open) sim::violation("writer left the " + what + " file open");
    if (after != before) sim::violation("writer leaked memory writing a " + what + " file" + (threw ? " (exception)" : ""));
    if (ok) {   // the file depends on the image alone: nothing of an older file, no stray bytes
        sim::fs_clear_faults(); std::string rb = "/simfs/out/ref", r; if (!lib_write(f, rb, p, how, prec) || !sim::fs_get(path_of(f, rb), r)) sim::violation("writer failed on a perfect disk: " + what); sim::fs_remove(path_of(f, rb));
        if (r != d) sim::violation("a " + what + " file written over another one or on a slow disk (" + std::to_string(d.size()) + " bytes) differs from one written afresh (" + std::to_string(r.size()) + " bytes)");
    }
    for (auto& n : sim::fs_list()) if (n != path && n != "/simfs/out/keep.txt" && ok) sim::violation("writer left a stray file behind: " + n);
    std::string k; if (!sim::fs_get("/simfs/out/keep.txt", k) || k != "keep") sim::violation("writer damaged another file");
    sim::fs_clear_faults();
}
int any_fmt() { return (int)sim::in().below(NF); }
} // namespace
SCENARIO(no_fault) { write_case(any_fmt(), NONE, sim::in().chance(1, 3)); }
SCENARIO_W(disk_full, 3) { write_case(any_fmt(), FULL, sim::in().chance(1, 3)); }
SCENARIO_W(write_errors, 3) { write_case(any_fmt(), EIOW, sim::in().chance(1, 3)); }
SCENARIO_W(close_errors, 2) { write_case(any_fmt(), CLOSE, sim::in().chance(1, 3)); }
SCENARIO(open_errors) { write_case(any_fmt(), OPEN, false); }
SCENARIO_W(mixed, 2) { write_case(any_fmt(), MIXED, sim::in().chance(1, 3)); }
SCENARIO_W(out_of_memory, 2) { write_case(any_fmt(), MEM, false); }
// a request that is rejected leaves the file that is there alone
SCENARIO(rejected)
{
    auto& g = sim::in(); sim::fs_reset(); bool csv = g.chance(1, 2), exists = g.chance(3, 4); int f = csv ? CSV : PPM3 + (int)g.below(3), how = (int)g.below(3); std::string path = path_of(f, "/simfs/out/picture"), old = encode(f, random_pic(f)); sim::fs_put("/simfs/out/keep.txt", "keep"); if (exists) sim::fs_put(path, old);
    static const char* magics[] = {"P4", "P5", "P6", "", "P", "p3", "P33", "3"}; std::string magic = g.pick(magics); Image<RGB> m(size_t(2), size_t(3)); auto dims = g.chance(1, 2) ? std::vector<size_t>{2, 2, 2} : std::vector<size_t>{3}; Image<double> odd(dims); bool threw = false;
    sim::run([&] {
        try {
            if (!csv) pnm::write(m, path, magic);
            else if (how == 0) double_image::write_to_csv(path.c_str(), odd);
            else if (how == 1) double_image::write_to_csv(std::execution::par, path.c_str(), odd);
            else double_image::write_to_csv(std::execution::seq, path, odd);
        } catch (const std::exception&) { threw = true; }
    });
    if (!threw) sim::violation(csv ? "an image without two dimensions was written as CSV" : "an unknown PNM kind was accepted");
    std::string d; if (sim::fs_get(path, d) != exists || (exists && d != old)) sim::violation(std::string("a rejected request touched the ") + (csv ? "csv" : "pnm") + " file");
    if (sim::fs_open_handles()) sim::violation("a rejected request left a file open");
}
// several clients write different files on a disk with faults: each learns the fate of its own file
SCENARIO_W(several_writers, 2)
{
    auto& g = sim::in(); sim::fs_reset(); sim::fs_put("/simfs/out/keep.txt", "keep"); size_t n = 2 + g.below(2); std::vector<int> f(n), how(n), ok(n, 0); std::vector<Pic> p(n);
    for (size_t i = 0; i < n; ++i) { f[i] = any_fmt(); how[i] = (int)g.below(6); p[i] = random_pic(f[i]); if (p[i].v.size() > 400) p[i] = Pic{1, 1, p[i].c, std::vector<double>(p[i].c, 5)}; }
    auto& c = sim::fs(); c.soft = g.chance(1, 2); if (g.chance(2, 3)) c.p_write_err = (uint32_t)g.below(300); if (g.chance(1, 3)) c.p_close_err = 200; if (g.chance(1, 3)) c.capacity = 40 + g.below(3000);
    sim::run([&] { std::vector<std::function<void()>> b; for (size_t i = 0; i < n; ++i) b.push_back([&, i] { try { ok[i] = lib_write(f[i], "/simfs/out/p" + std::to_string(i), p[i], how[i]); } catch (const std::exception&) {} }); sim::clients(b); });
    uint32_t hard = sim::fs_hard_faults();
    for (size_t i = 0; i < n; ++i) { std::string d; bool good = sim::fs_get(path_of(f[i], "/simfs/out/p" + std::to_string(i)), d) && file_holds(f[i], d, p[i]); if (ok[i] && !good) sim::violation(std::string("one of several writers reported success for an incomplete ") + fmt_name(f[i]) + " file"); if (!ok[i] && !hard) sim::violation(std::string("one of several writers failed although nothing failed: ") + fmt_name(f[i])); }
    if (sim::fs_open_handles()) sim::violation("a writer left a file open");
    sim::fs_clear_faults();
}
