// C09: transform_container applies a command to every element: same result for every policy, order kept, failures leave nothing behind.
#include "ws.h"
#include <atomic>
using namespace ws;
using Img = Image<double>;
namespace {
const char* POL[] = {"", "seq", "par", "par_unseq", "unseq"};
Img tagged(int tag, size_t w, size_t hh) { std::vector<double> v(w * hh); for (size_t i = 0; i < v.size(); ++i) v[i] = tag * 100 + (double)(i % 7); return Img(v, w, hh); }
Img expected(const Img& in, int k) { auto d = in.getImageData(); for (auto& x : d) x = x * k + 1; return Img(d, in.getWidth(), in.getHeight()); }
int tag_of(const Img& im) { return (int)im.at_without_boundary_check(size_t(0), size_t(0)) / 100; }
// The commands applied to the elements. fails: tags of the elements whose command fails, and how.
struct Commands {
    CommandRegistry reg; std::vector<int> how = std::vector<int>(64, 0); std::vector<std::atomic<int>> calls = std::vector<std::atomic<int>>(64); std::vector<std::string> extra; std::atomic<bool> args_changed = false;
    Commands()
    {
        reg.register_command("work", "test command", TransformerSchema, [this](Workspace& w, std::span<const std::string_view> a, std::ostream& os) {
            auto f = args_filter(a);
            auto src = w.retrieve<Img>(f[0].substr(1)); if (!src) throw std::runtime_error("no input");
            int t = tag_of(*src), k = f.size() > 2 ? atoi(std::string(f[2]).c_str()) : 2; calls[(size_t)t].fetch_add(1); if (f.size() > 2 && std::vector<std::string>(f.begin() + 3, f.end()) != extra) args_changed = true;
            sim::yield();
            if (how[(size_t)t] == 1) { os << "element refused\n"; return; }
            if (how[(size_t)t] == 2) throw std::runtime_error("element failed");
            if (how[(size_t)t] == 3) throw std::bad_alloc();
            if (how[(size_t)t] == 4) { w.store(f[1].substr(1), Image<unsigned char>(size_t(2), size_t(2))); return; }
            w.store(f[1].substr(1), expected(*src, k));
            sim::yield();
        });
        reg.register_command("transform_container", "", IndependentSchema, [this](Workspace& w, std::span<const std::string_view> a, std::ostream& os) { handlers::transform_container(w, a, reg, os); });
    }
};
std::vector<std::string> names_in(Workspace& w) { std::vector<std::string> n; for (auto& [k, v] : w.memory_store) n.push_back(k); return n; }
std::any container(int kind, const std::vector<Img>& v)
{
    if (kind == 0) return v;
    if (kind == 1) return std::deque<Img>(v.begin(), v.end());
    return std::list<Img>(v.begin(), v.end());
}
bool holds(const std::any& a, int kind, const std::vector<Img>& v)
{
    auto same = [&](const auto* p) { if (!p || p->size() != v.size()) return false; size_t i = 0; for (auto& e : *p) if (!eq(e, v[i++])) return false; return true; };
    return kind == 0 ? same(std::any_cast<std::vector<Img>>(&a)) : kind == 1 ? same(std::any_cast<std::deque<Img>>(&a)) : same(std::any_cast<std::list<Img>>(&a));
}
// fault: 0 none, 1 failing elements, 2 failing allocation; bystander: another client uses other variables meanwhile
void transform(int fault, bool bystander)
{
    auto& g = sim::in(); Commands c; Workspace w; size_t n = g.chance(1, 12) ? 20 + g.below(30) : g.chance(1, 15) ? 0 : 1 + g.below(7); int kind = (int)g.below(3), k = g.chance(1, 3) ? -5 + (int)g.below(16) : 2 + (int)g.below(4); static const char* more[] = {"-3", "$other", "\"x y\"", "0", "1.0", "in", "work", "a|b"}; for (size_t i = g.chance(1, 2) ? 0 : g.below(4); i--;) c.extra.push_back(g.pick(more));
    std::vector<Img> in, want; for (size_t i = 0; i < n; ++i) in.push_back(tagged((int)i, 1 + g.below(4), 1 + g.below(3)));
    for (auto& e : in) want.push_back(expected(e, k));
    bool same_name = n && g.chance(1, 8), had_out = !same_name && g.chance(1, 2); std::string out = same_name ? "in" : "result_container";
    w.memory_store["in"] = container(kind, in); w.store("other", 7.0); std::vector<Img> old = {tagged(50, 2, 2)}; if (had_out) w.store("result_container", old);
    bool fails = false, mixed = false; if (fault == 1 && n) for (size_t i = 0, m = 1 + g.below(3); i < m; ++i) { int how = 1 + (int)g.below(4); c.how[g.below(n)] = how; }
    for (size_t i = 0; i < n; ++i) { if (c.how[i] && c.how[i] < 4) fails = true; if (c.how[i] == 4) mixed = true; }
    bool all_mixed = mixed && !fails; for (size_t i = 0; i < n; ++i) if (c.how[i] != 4) all_mixed = false;
    std::string pol = POL[fault == 2 ? g.below(2) : g.chance(1, 2) ? 2 + g.below(2) : g.below(5)]; unsigned nth = fault == 2 ? 1 + (unsigned)g.below(60) : 0;
    std::vector<std::string> a; if (!pol.empty() && g.chance(1, 2)) { a.push_back(pol); pol.clear(); } a.insert(a.end(), {"$in", "$" + out, "work", std::to_string(k)}); a.insert(a.end(), c.extra.begin(), c.extra.end()); if (!pol.empty()) a.push_back(pol);
    std::vector<std::string_view> av(a.begin(), a.end()); std::ostringstream os; bool other_ok = true; auto before = names_in(w);
    sim::run([&] {
        auto act = [&] { std::string cmd = "transform_container"; if (fault == 2) { sim::AllocGuard ag(nth); try { c.reg.execute(w, cmd, av, os); } catch (const std::bad_alloc&) {} } else c.reg.execute(w, cmd, av, os); };
        if (!bystander) act();
        else sim::clients({act, [&] { for (int i = 0; i < 4; ++i) { w.store("mine", (double)i); auto r = w.retrieve_any("mine"); if (!r || read(*r) != Val{DBL, i}) other_ok = false; auto o = w.retrieve_any("other"); if (!o || read(*o) != Val{DBL, 7}) other_ok = false; sim::yield(); } w.remove("mine"); }});
    });
    std::string t = os.str(), ctx = " (" + std::to_string(n) + " elements" + (a[0][0] == '$' ? a.size() > 4 + c.extra.size() ? ", policy " + a.back() : std::string() : ", policy " + a[0]) + ")";
    if (c.args_changed) sim::violation("transform_container does not pass the arguments on to the command" + ctx);
    if (!other_ok) sim::violation("transform_container disturbed another client's variables" + ctx);
    auto o = w.retrieve_any(out); bool done = o && (n || !same_name) && holds(*o, 0, want) && (n || !had_out || std::any_cast<std::vector<Img>>(&*o)->empty());
    if (all_mixed && n) { auto p = o ? std::any_cast<std::vector<Image<unsigned char>>>(&*o) : nullptr; done = p && p->size() == n; }
    bool untouched = same_name ? o && holds(*o, kind, in) : had_out ? o && holds(*o, 0, old) : !o;
    auto after = names_in(w); auto exp_names = before; if (done && !had_out && !same_name) exp_names.push_back("result_container"); std::sort(exp_names.begin(), exp_names.end());
    if (fault == 0 || (fault == 1 && (all_mixed || (!fails && !mixed)))) {
        if (!done && !(n == 0 && same_name)) sim::violation("transform_container did not store the transformed elements in order" + ctx);
        if (t.find("Error") != std::string::npos) sim::violation("transform_container reported an error although every element succeeded" + ctx);
        for (size_t i = 0; i < n; ++i) if (c.calls[i] != 1) sim::violation("transform_container ran the command " + std::to_string(c.calls[i]) + " times for one element" + ctx);
    } else if (fault == 1) {
        if (!untouched) sim::violation("transform_container changed its output variable although an element failed" + ctx);
        if (t.find("Error") == std::string::npos || t.find("Successfully") != std::string::npos) sim::violation("transform_container hid the failure of an element" + ctx);
    } else if (!done && !untouched) sim::violation("transform_container ran out of memory and left a partial result" + ctx);
    else if (done && !untouched) { exp_names = before; if (!had_out && !same_name) exp_names.push_back("result_container"); std::sort(exp_names.begin(), exp_names.end()); }
    if (!same_name) { auto i = w.retrieve_any("in"); if (!i || !holds(*i, kind, in)) sim::violation("transform_container changed its input container" + ctx); }
    if (after != exp_names && !(n == 0 && same_name)) { std::string extra; for (auto& x : after) if (std::find(exp_names.begin(), exp_names.end(), x) == exp_names.end()) extra += " " + x; sim::violation("transform_container left temporary variables behind:" + extra + ctx); }
    sim::cover(((uint64_t)n * 8 + (uint64_t)kind) * 64 + (uint64_t)fault * 16 + (fails ? 8 : 0) + (mixed ? 4 : 0) + (done ? 2 : 0));
}
} // namespace
SCENARIO_W(all_succeed, 3) { transform(0, false); }
SCENARIO_W(elements_fail, 4) { transform(1, false); }
SCENARIO_W(bystander, 2) { transform(0, true); }
SCENARIO_W(bystander_and_failure, 2) { transform(1, true); }
SCENARIO_W(out_of_memory, 2) { transform(2, false); }
// several clients transform containers of one workspace at the same time
SCENARIO_W(two_transforms, 2)
{
    auto& g = sim::in(); Commands c; Workspace w; size_t m = 2 + g.below(2); std::vector<std::vector<Img>> in(m), want(m); std::vector<bool> fails(m, false); std::vector<std::vector<std::string>> a(m); std::vector<std::ostringstream> os(m); int tag = 0; std::vector<size_t> owner;
    for (size_t q = 0; q < m; ++q) {
        int k = 2 + (int)g.below(4); size_t n = 1 + g.below(4);
        for (size_t i = 0; i < n; ++i) { in[q].push_back(tagged(tag, 1 + g.below(3), 1 + g.below(3))); want[q].push_back(expected(in[q].back(), k)); if (g.chance(1, 12)) { c.how[(size_t)tag] = 1 + (int)g.below(3); fails[q] = true; } ++tag; owner.push_back(q); }
        w.store("in" + std::to_string(q), in[q]); std::string pol = POL[g.below(5)]; if (!pol.empty()) a[q].push_back(pol);
        a[q].insert(a[q].end(), {"$in" + std::to_string(q), "$out" + std::to_string(q), "work", std::to_string(k)});
    }
    std::vector<std::function<void()>> cl; for (size_t q = 0; q < m; ++q) cl.push_back([&, q] { std::vector<std::string_view> av(a[q].begin(), a[q].end()); c.reg.execute(w, "transform_container", av, os[q]); });
    sim::run([&] { sim::clients(cl); });
    size_t names = m;
    for (size_t q = 0; q < m; ++q) {
        auto o = w.retrieve_any("out" + std::to_string(q)), i = w.retrieve_any("in" + std::to_string(q)); bool err = os[q].str().find("Error") != std::string::npos;
        if (!i || !holds(*i, 0, in[q])) sim::violation("two transform_container at once: an input container was changed");
        if (fails[q] ? o.has_value() : !o || !holds(*o, 0, want[q])) sim::violation(std::string("two transform_container at once: ") + (fails[q] ? "a failed transformation left a result" : "one got the elements or the failure of the other"));
        if (err != fails[q]) sim::violation("two transform_container at once: a failure was hidden or invented");
        names += o.has_value();
    }
    for (int t = 0; t < tag; ++t) if (c.calls[(size_t)t] > 1 || (!c.calls[(size_t)t] && !fails[owner[(size_t)t]])) sim::violation("two transform_container at once: the command ran " + std::to_string(c.calls[(size_t)t]) + " times for one element");
    if (names_in(w).size() != names) sim::violation("two transform_container at once left temporary variables behind");
}
// a real command, itself parallel
SCENARIO(multiply_by_variable)
{
    auto& g = sim::in(); CommandRegistry reg; Workspace w; size_t n = 1 + g.below(5); std::vector<Img> in; for (size_t i = 0; i < n; ++i) in.push_back(tagged((int)i, 2, 1 + g.below(3)));
    reg.register_command("normalize", "", TransformerSchema, [](Workspace& ws_, std::span<const std::string_view> a, std::ostream& os) { handlers::normalize(ws_, a, os); });
    reg.register_command("transform_container", "", IndependentSchema, [&](Workspace& ws_, std::span<const std::string_view> a, std::ostream& os) { handlers::transform_container(ws_, a, reg, os); });
    w.store("in", in); std::ostringstream o1, o2; std::vector<std::string_view> s = {"seq", "$in", "$ref", "normalize"}, p = {POL[2 + g.below(2)], "$in", "$out", "normalize"};
    reg.execute(w, "transform_container", s, o1);
    auto ref = w.retrieve_any("ref");
    sim::run([&] { reg.execute(w, "transform_container", p, o2); });
    auto got = w.retrieve_any("out");
    if (!ref || !got) sim::violation("transform_container produced nothing for a command that always succeeds: " + o1.str() + o2.str());
    auto a = std::any_cast<std::vector<Img>>(&*ref); auto b = std::any_cast<std::vector<Img>>(&*got);
    if (!a || !b || a->size() != n || !eq(*a, *b)) sim::violation("transform_container gives different elements under a parallel policy");
}
