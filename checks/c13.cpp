// C13: saving and loading a workspace bundle: honest reports, exact values, any crash point.
#include "ws.h"
#include "files.h"
using namespace ws;
using namespace files;
namespace {
const char* DIR_ = "/simfs/bundle";
struct Var { std::string name; int f; Pic p; };   // f: BMP, DBMP, HSVF, or NF for something that cannot be saved
std::vector<Var> random_vars(size_t n, bool extras)
{
    auto& g = sim::in(); std::vector<Var> v; static const int fm[] = {BMP, DBMP, HSVF}; static const char* nm[] = {"a", "b2", "a_long_variable_name", "x.y", "A", "zz", "input image"};
    std::set<std::string> used;
    for (size_t i = 0; i < n; ++i) { std::string s = g.pick(nm); if (!used.insert(s).second) continue; int f = extras && g.chance(1, 6) ? (int)NF : fm[g.below(3)]; Var x{s, f, {}}; if (f != NF) { x.p = random_pic(f); while (x.p.v.size() > 400) x.p = random_pic(f); } v.push_back(x); }
    return v;
}
void put(Workspace& w, const Var& v) { if (v.f == BMP) w.store(v.name, rgb(v.p)); else if (v.f == DBMP) w.store(v.name, dbl(v.p)); else if (v.f == HSVF) w.store(v.name, hsv(v.p)); else w.store(v.name, 3.5); }
bool is(Workspace& w, const Var& v)
{
    if (v.f == BMP) { auto p = w.retrieve<Image<RGB>>(v.name); return p && pic_of(*p) == v.p; }
    if (v.f == DBMP) { auto p = w.retrieve<Image<double>>(v.name); return p && pic_of(*p) == v.p; }
    if (v.f == HSVF) { auto p = w.retrieve<Image<HSV>>(v.name); return p && pic_of(*p) == v.p; }
    auto p = w.retrieve<double>(v.name); return p && *p == 3.5;
}
std::string file_of(const Var& v) { return path_of(v.f, std::string(DIR_) + "/" + v.name); }
bool save(Workspace& w, std::ostream& os) { std::vector<std::string_view> a = {DIR_}; try { handlers::save_workspace(w, a, os); return true; } catch (const std::exception& e) { os << "Error: " << e.what() << "\n"; return false; } }
bool load(Workspace& w, std::ostream& os) { std::vector<std::string_view> a = {DIR_}; try { handlers::load_workspace(w, a, os); return true; } catch (const std::exception& e) { os << "Error: " << e.what() << "\n"; return false; } }
bool has(const std::string& t, const std::string& s) { return t.find(s) != std::string::npos; }
// the reports of a save must be true
void check_save(const std::vector<Var>& v, const std::string& t, bool hard)
{
    bool success = has(t, "saved successfully");
    for (auto& x : v) if (x.f != NF) {
        std::string d; bool good = sim::fs_get(file_of(x), d) && file_holds(x.f, d, x.p); bool said = has(t, "Saved $" + x.name + " ->");
        if (said && !good) sim::violation("save_workspace reported $" + x.name + " as saved, but its " + fmt_name(x.f) + " file is incomplete");
        if (success && !good) sim::violation("save_workspace reported success although $" + x.name + " was not saved");
        if (!hard && !good) sim::violation("save_workspace did not save $" + x.name + " on a healthy disk");
    }
    if (!hard && !success) sim::violation("save_workspace reported failure on a healthy disk: " + t);
}
} // namespace
SCENARIO_W(save_then_load, 2)
{
    auto& g = sim::in(); sim::fs_reset(); auto v = random_vars(1 + g.below(6), true); sim::fs().soft = g.chance(2, 3); Workspace w, r; for (auto& x : v) put(w, x);
    Var keep{"kept", NF, {}}; put(r, keep); bool clash = g.chance(1, 3); if (clash && v[0].f != NF) r.store(v[0].name, 1.0);
    std::ostringstream so, lo;
    sim::run([&] { save(w, so); load(r, lo); });
    check_save(v, so.str(), false);
    for (auto& x : v) { if (!is(w, x)) sim::violation("saving changed $" + x.name); if (x.f != NF ? !is(r, x) : r.retrieve<double>(x.name) != nullptr) sim::violation("loading a saved workspace did not restore $" + x.name + " exactly"); }
    if (!is(r, keep)) sim::violation("loading a workspace disturbed an unrelated variable");
    size_t n = 0; for (auto& x : v) n += x.f != NF; if (r.memory_store.size() != n + 1) sim::violation("loading a workspace created " + std::to_string(r.memory_store.size()) + " variables instead of " + std::to_string(n + 1));
    if (!has(lo.str(), "loaded successfully")) sim::violation("load_workspace reported failure on a healthy disk: " + lo.str());
    if (sim::fs_open_handles()) sim::violation("workspace files left open");
}
SCENARIO_W(save_on_failing_disk, 3)
{
    auto& g = sim::in(); sim::fs_reset(); auto v = random_vars(1 + g.below(6), true); auto& c = sim::fs(); c.soft = g.chance(1, 2); Workspace w; for (auto& x : v) put(w, x);
    if (g.chance(1, 3)) c.capacity = 1 + g.below(2500); if (g.chance(1, 3)) c.p_write_err = 20 + (uint32_t)g.below(300); if (g.chance(1, 3)) c.p_close_err = 200; if (g.chance(1, 3)) c.p_open_err = 150; if (g.chance(1, 5)) c.p_dir_err = 100;
    std::ostringstream so; sim::run([&] { save(w, so); });
    check_save(v, so.str(), sim::fs_hard_faults() > 0); for (auto& x : v) if (!is(w, x)) sim::violation("a failing save changed $" + x.name);
    // what a later session finds on that disk
    sim::fs_clear_faults(); std::string t = so.str(); Workspace r; std::ostringstream lo; bool dir = sim::fs_exists(DIR_); load(r, lo);
    for (auto& x : v) if (x.f != NF && !is(r, x)) { if (r.retrieve_any(x.name)) sim::violation("after a failed save $" + x.name + " was loaded with a value it never had"); if (has(t, "Saved $" + x.name + " ->")) sim::violation("$" + x.name + " was reported as saved but cannot be loaded"); }
    bool all = true; for (auto& e : sim::fs_list()) { bool known = false; for (auto& x : v) if (x.f != NF && file_of(x) == e) known = is(r, x); all = all && known; }
    if (dir && !all && has(lo.str(), "loaded successfully")) sim::violation("load_workspace reported success although a file was incomplete");
    if (sim::fs_open_handles()) sim::violation("workspace files left open");
}
SCENARIO_W(crash_while_saving, 4)
{
    auto& g = sim::in(); sim::fs_reset(); auto v = random_vars(1 + g.below(5), true); bool again = g.chance(1, 2); auto old = v; Workspace w, w0;
    for (auto& x : old) if (x.f != NF) { x.p = random_pic(x.f); while (x.p.v.size() > 400) x.p = random_pic(x.f); }
    if (again) { std::ostringstream o; for (auto& x : old) put(w0, x); save(w0, o); }
    for (auto& x : v) put(w, x); auto& c = sim::fs(); c.soft = g.chance(1, 2); c.crash_at = sim::fs_mutations() + 1 + g.below(4 * v.size() + 3); std::ostringstream so;
    sim::run([&] { save(w, so); });
    bool crashed = sim::fs_crashed(); sim::fs_restart(); Workspace r; std::ostringstream lo; load(r, lo);
    size_t n = 0, whole = 0;
    for (auto& x : v) if (x.f != NF) { ++n; bool fresh = is(r, x); whole += fresh; const Var* o = nullptr; for (auto& y : old) if (y.name == x.name) o = &y; if (!fresh && r.retrieve_any(x.name) && !(again && o && is(r, *o))) sim::violation("after a crash while saving, $" + x.name + " came back with a value it never had"); if (!crashed && !fresh) sim::violation("$" + x.name + " lost without a crash"); }
    sim::cover(n * 100 + whole * 10 + (again ? 5 : 0) + crashed);
    // the restarted session saves again: everything is back
    std::ostringstream o2, l2; Workspace r2; save(w, o2); load(r2, l2); for (auto& x : v) if (x.f != NF && !is(r2, x)) sim::violation("saving again after a crash does not repair $" + x.name);
    if (!has(l2.str(), "loaded successfully")) sim::violation("the bundle saved after a crash does not load: " + l2.str());
}
SCENARIO_W(load_from_bad_storage, 3)
{
    auto& g = sim::in(); sim::fs_reset(); auto v = random_vars(1 + g.below(6), false); Workspace w, r; for (auto& x : v) put(w, x); std::ostringstream so, lo; save(w, so); sim::fs_put(std::string(DIR_) + "/notes.txt", "not an image");
    std::set<std::string> bad; for (auto& x : v) if (g.chance(1, 3)) { std::string d; sim::fs_get(file_of(x), d); size_t need = x.f == BMP ? x.p.w % 4 : 8 * (x.p.w % 8); size_t cut = need + 1 + g.below(d.size() - need); sim::fs_put(file_of(x), d.substr(0, d.size() - std::min(cut, d.size()))); bad.insert(x.name); }
    auto& c = sim::fs(); c.soft = g.chance(1, 2); if (g.chance(1, 2)) c.p_read_err = (uint32_t)g.below(200); if (g.chance(1, 4)) c.p_open_err = 100; if (g.chance(1, 6)) c.p_dir_err = 60; bool ok = false;
    std::vector<char> had(v.size()); for (size_t i = 0; i < v.size(); ++i) if ((had[i] = g.chance(1, 4))) r.store(v[i].name, 3.5);
    sim::run([&] { ok = load(r, lo); });
    uint32_t hard = sim::fs_hard_faults(); std::string t = lo.str(); bool success = has(t, "loaded successfully");
    for (size_t i = 0; i < v.size(); ++i) { auto& x = v[i];
        bool got = is(r, x), kept = had[i] ? is(r, Var{x.name, NF, {}}) : !r.retrieve_any(x.name);
        if (!got && !kept) sim::violation("loading damaged storage gave $" + x.name + " a value that was never saved");
        if (got && bad.count(x.name)) sim::violation("a truncated file was loaded as if complete: $" + x.name);
        if (!got && !hard && !bad.count(x.name)) sim::violation("one bad file kept load_workspace from loading $" + x.name);
        if (success && !got) sim::violation("load_workspace reported success without loading $" + x.name);
        if (has(t, "-> $" + x.name + "\n") && !got) sim::violation("load_workspace reported $" + x.name + " as loaded");
    }
    if (!success && !hard && bad.empty()) sim::violation("load_workspace reported failure on healthy storage");
    if (!ok && !hard) sim::violation("load_workspace threw although the storage answered");
    if (r.memory_store.size() > v.size()) sim::violation("load_workspace created variables for files that are not images");
    if (sim::fs_open_handles()) sim::violation("workspace files left open");
}
SCENARIO_W(save_while_in_use, 3)
{   // another client changes the workspace meanwhile: the bundle is one state the workspace was in
    auto& g = sim::in(); sim::fs_reset(); Workspace w, r; auto mk = [](int i) { return Image<double>(std::vector<double>(2, (double)i), size_t(2), size_t(1)); };
    std::map<std::string, int> s; int next = 1; for (const char* n : {"a", "b", "c"}) if (g.chance(2, 3)) { w.store(n, mk(next)); s[n] = next++; }
    struct Step { std::string n; int v; }; std::vector<Step> plan; for (size_t i = 0, k = 1 + g.below(5); i < k; ++i) plan.push_back({std::string(1, (char)('a' + g.below(3))), g.chance(1, 3) ? 0 : next++});
    std::ostringstream so; std::vector<std::pair<uint64_t, uint64_t>> t(plan.size()); uint64_t b = 0, e = 0;
    sim::run([&] { sim::clients({[&] { b = sim::steps(); save(w, so); e = sim::steps(); }, [&] { for (size_t i = 0; i < plan.size(); ++i) { t[i].first = sim::steps(); if (plan[i].v) w.store(plan[i].n, mk(plan[i].v)); else w.remove(plan[i].n); t[i].second = sim::steps(); } }}); });
    std::ostringstream lo; if (sim::fs_exists(DIR_)) load(r, lo); std::map<std::string, int> got; for (auto& [n, a] : r.memory_store) { auto p = std::any_cast<Image<double>>(&a); got[n] = p ? (int)p->at_without_boundary_check(size_t(0), size_t(0)) : -1; }
    bool found = false; for (size_t i = 0;; ++i) { bool possible = (i == 0 || t[i - 1].first <= e) && (i == plan.size() || t[i].second >= b); if (possible && got == s) found = true; if (i == plan.size()) break; if (plan[i].v) s[plan[i].n] = plan[i].v; else s.erase(plan[i].n); }
    if (!found) { std::string x; for (auto& [n, k] : got) x += " " + n + "=" + std::to_string(k); sim::violation("save_workspace saved a state the workspace was never in:" + x); }
}
