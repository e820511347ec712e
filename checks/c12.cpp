// C12: what is written is read back exactly, whatever the sizes of the transfers and whoever else is using the disk.
#include "files.h"
using namespace files;
namespace {
void check_back(int f, const Pic& p, const Pic& got, int prec, const char* who)
{
    Pic want = stored(f, p); if (f == CSVP) for (auto& v : want.v) { char b[64]; snprintf(b, sizeof b, "%.*f", prec, v); v = strtod(b, nullptr); }
    if (!(got == want)) sim::violation(std::string(who) + " changed a " + fmt_name(f) + " picture of " + p.size() + (got.w == want.w && got.h == want.h ? "" : " into one of " + got.size()));
}
}
SCENARIO_W(round_trip, 4)
{
    auto& g = sim::in(); sim::fs_reset(); int f = (int)g.below(TEX), prec = (int)g.below(6), a = (int)g.below(6), b = (int)g.below(6); Pic p = random_pic(f); std::string base = "/simfs/rt/picture"; sim::fs_put("/simfs/rt/x", ""); sim::fs().soft = g.chance(3, 4); Pic got;
    sim::run([&] { if (!lib_write(f, base, p, a, prec)) sim::violation("writing failed on a healthy disk"); got = lib_read(f, path_of(f, base), b); });
    check_back(f, p, got, prec, "writing and reading back"); for (auto v : got.v) dig(v);
}
SCENARIO(twice)
{   // rewriting a file with another picture, smaller or larger, replaces it entirely
    auto& g = sim::in(); sim::fs_reset(); int f = (int)g.below(TEX), f2 = f >= PPM3 && f <= PPM1 ? PPM3 + (int)g.below(3) : f; Pic p = random_pic(f), q = random_pic(f2); std::string base = "/simfs/rt/picture"; sim::fs_put("/simfs/rt/x", ""); sim::fs().soft = g.chance(1, 2); Pic got; int a = (int)g.below(6);
    sim::run([&] { if (!lib_write(f, base, p, a) || !lib_write(f2, base, q, a + 1)) sim::violation("writing failed on a healthy disk"); got = lib_read(f2, path_of(f2, base), a); });
    check_back(f2, q, got, 3, "rewriting");
    std::string d; sim::fs_get(path_of(f2, base), d); if (!file_holds(f2, d, q)) sim::violation(std::string("rewriting left a damaged ") + fmt_name(f2) + " file");
}
SCENARIO_W(files_of_others, 2)
{   // files written by other programs within the format: comments, white space, palettes, top-down rows, gaps
    auto& g = sim::in(); sim::fs_reset(); int f = (int)g.below(CSVP), how = (int)g.below(6); std::string d = encode(f, random_pic(f)), path = path_of(f, "/simfs/rt/picture"); Parsed w = parse(f, d); sim::fs_put(path, d); sim::fs().soft = g.chance(3, 4); Pic got;
    sim::run([&] { got = lib_read(f, path, how); });
    bool same = w.s == Parsed::EXACT && got.w == w.p.w && got.h == w.p.h; for (size_t i = 0; same && i < got.v.size(); ++i) if (!w.free[i] && !eqd(got.v[i], w.p.v[i])) same = false;
    if (!same) sim::violation(std::string("a valid ") + fmt_name(f) + " file was not read exactly");
}
SCENARIO_W(several_clients, 2)
{   // clients work on files of their own; a common file is only read
    auto& g = sim::in(); sim::fs_reset(); size_t n = 2 + g.below(2); std::vector<int> f(n), how(n); std::vector<Pic> p(n), got(n), common(n); int cf = (int)g.below(CSVP); auto small = [](int k) { Pic q = random_pic(k); while (q.v.size() > 120) q = random_pic(k); return q; };
    std::string cd = encode(cf, small(cf)), cpath = path_of(cf, "/simfs/rt/common"); sim::fs_put(cpath, cd); Parsed w = parse(cf, cd); sim::fs().soft = g.chance(1, 2);
    for (size_t i = 0; i < n; ++i) { f[i] = (int)g.below(CSVP); p[i] = small(f[i]); how[i] = (int)g.below(6); }
    sim::run([&] { std::vector<std::function<void()>> b; for (size_t i = 0; i < n; ++i) b.push_back([&, i] { std::string base = "/simfs/rt/p" + std::to_string(i); if (how[i] & 1) common[i] = lib_read(cf, cpath, how[i]); if (!lib_write(f[i], base, p[i], how[i])) sim::violation("writing failed on a healthy disk"); got[i] = lib_read(f[i], path_of(f[i], base), how[i]); if (!(how[i] & 1)) common[i] = lib_read(cf, cpath, how[i]); }); sim::clients(b); });
    for (size_t i = 0; i < n; ++i) { check_back(f[i], p[i], got[i], 3, "a client's write and read"); bool same = common[i].w == w.p.w && common[i].h == w.p.h; for (size_t k = 0; same && k < w.p.v.size(); ++k) if (!w.free[k] && !eqd(common[i].v[k], w.p.v[k])) same = false; if (!same) sim::violation("clients reading a common file got different pixels"); }
}
