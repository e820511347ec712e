// C11: a reader returns exactly what the file says or reports failure, whatever the storage holds or does.
#include "files.h"
using namespace files;
namespace {
// break a file the way storage does
std::string damage(const std::string& d, int kind)
{
    auto& g = sim::in(); std::string o = d; size_t n = o.size(); auto at = [&] { return g.chance(1, 2) && n > 60 ? g.below(60) : g.below(n ? n : 1); };
    switch (kind) {
    case 0: o.resize(g.below(n + 1)); break;                                             // torn: a prefix only
    case 1: for (size_t i = 0, k = 1 + g.below(3); i < k && n; ++i) o[at()] ^= (char)(1 << g.below(8)); break;
    case 2: if (n) { size_t a = at(), l = 1 + g.below(n - a); for (size_t i = a; i < a + l; ++i) o[i] = 0; } break;   // lost sector
    case 3: if (n) { size_t a = at(); o.erase(a, 1 + g.below(std::min<size_t>(n - a, 40))); } break;
    case 4: if (n) { size_t a = at(), l = 1 + g.below(std::min<size_t>(n - a, 40)); o.insert(a, o.substr(a, l)); } break;
    case 5: for (size_t i = 0, k = 1 + g.below(4); i < k && n; ++i) o[at()] = (char)g.next(); break;
    case 6: for (size_t i = 0, k = 1 + g.below(40); i < k; ++i) o += (char)g.next(); break;
    case 7: o.clear(); break;
    case 8: o.resize(g.below(200)); for (auto& c : o) c = (char)g.next(); break;
    case 9: if (n > 26) { static const uint32_t v[] = {0x7fffffff, 0x80000000, 0xffffffff, 0x10000, 0, 1, 0xfffffffe}; le(o, g.chance(1, 2) ? 18 : 22, 4, g.pick(v)); if (g.chance(1, 2)) le(o, g.chance(1, 3) ? 10 : g.chance(1, 2) ? 18 : 22, 4, g.pick(v)); } break;
    case 10: if (n > 2) { static const char* t[] = {"99999999999999999999", "4294967295", "-1", "0", "x", "1e9", "18446744073709551615", "4611686018427387904", "", "#", "nan", "3.5"}; size_t a = g.below(std::min<size_t>(n, 24)); size_t b = a; while (b < n && !is_ws(o[b]) && o[b] != ',') ++b; o.replace(a, b - a, g.pick(t)); } break;
    case 11: if (n) o = o.substr(0, n - std::min<size_t>(n, 1 + g.below(12))); break;     // the last few bytes are missing
    }
    return o;
}
void read_case(int f, bool damaged, bool faulty, bool oom)
{
    auto& g = sim::in(); sim::fs_reset(); std::string path = path_of(f, "/simfs/in/picture"), d = encode(f, random_pic(f)), o = d; if (damaged) { o = damage(d, (int)g.below(12)); if (g.chance(1, 5)) o = damage(o, (int)g.below(12)); }
    sim::fs_put(path, o); Parsed want = parse(f, o); damaged = o != d; bool missing = !damaged && g.chance(1, 40); if (missing) sim::fs_remove(path);
    int how = (int)g.below(6); auto& c = sim::fs(); c.soft = g.chance(1, 2); if (faulty) { c.p_read_err = 10 + (uint32_t)g.below(300); if (g.chance(1, 4)) c.p_open_err = 200; }
    unsigned nth = oom ? 1 + (unsigned)g.below(40) : 0; bool sticky = g.chance(1, 3), ok = false, fired = false; Pic got; int64_t before = 0, after = 0; std::string why;
    sim::run([&] {
        before = sim::live_blocks();
        try { sim::AllocGuard ag(nth, sticky); Pic t = lib_read(f, path, how); ok = true; fired = sim::alloc_fault_fired(); sim::AllocGuard off(0); got = std::move(t); } catch (const std::exception& e) { fired = sim::alloc_fault_fired(); sim::AllocGuard off(0); why = std::string(e.what()).substr(0, 10); }
        after = sim::live_blocks() - (got.v.capacity() ? 1 : 0);
    });
    bool mem = oom && fired; uint32_t hard = sim::fs_hard_faults(); std::string what = std::string(fmt_name(f)) + " file (" + std::to_string(o.size()) + " bytes" + (damaged ? ", damaged" : "") + ")";
    sim::cover((uint64_t)f * 1000 + (uint64_t)want.s * 100 + (ok ? 50 : 0) + (hard ? 20 : 0) + (mem ? 10 : 0) + (uint64_t)damaged * 5);
    if (ok && missing) sim::violation("reader returned an image for a missing file");
    if (ok && want.s == Parsed::FAIL) sim::violation("reader made up an image for an incomplete or invalid " + what + ": " + got.size());
    if (ok && want.s == Parsed::EXACT) {
        bool same = got.w == want.p.w && got.h == want.p.h && got.v.size() == want.p.v.size();
        for (size_t i = 0; same && i < got.v.size(); ++i) if (!want.free[i] && !eqd(got.v[i], want.p.v[i])) same = false;
        if (!same) sim::violation("reader returned other pixels than the " + what + " holds" + (hard ? " after a read error" : ""));
    }
    if (!ok && !damaged && !missing && !hard && !mem) sim::violation("reader refused a valid " + what);
    if (sim::fs_open_handles()) sim::violation("reader left a " + what + " open");
    if (after != before) sim::violation("reader leaked memory reading a " + what + (ok ? "" : " it refused"));
    if (ok && want.s == Parsed::EXACT && !damaged) for (auto v : got.v) dig(v);
    sim::fs_clear_faults();
}
int any_fmt() { return (int)sim::in().below(CSVP); }
} // namespace
SCENARIO(valid) { read_case(any_fmt(), false, false, false); }
SCENARIO_W(damaged, 5) { read_case(any_fmt(), true, false, false); }
SCENARIO_W(failing_disk, 3) { read_case(any_fmt(), false, true, false); }
SCENARIO(damaged_and_failing) { read_case(any_fmt(), true, true, false); }
SCENARIO_W(out_of_memory, 2) { read_case(any_fmt(), false, false, true); }
SCENARIO(damaged_out_of_memory) { read_case(any_fmt(), true, false, true); }
