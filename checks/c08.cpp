// C08: a workspace operation that fails changes nothing.
#include "ws.h"
using namespace ws;

SCENARIO_W(out_of_memory, 4)
{
    auto& g = sim::in(); std::vector<std::string> names = {"a", "b", "a_rather_long_variable_name_c"}; int next = 1; State m; Workspace w;
    for (auto& n : names) if (g.chance(1, 2)) { Val v{(int)g.below(NK), next++}; store(w, n, v); m[n] = v; }
    size_t n = 3 + g.below(10); std::vector<Op> plan; std::vector<int> at; std::vector<bool> sticky; for (size_t i = 0; i < n; ++i) { plan.push_back(random_op(next, names, false)); at.push_back(g.chance(2, 3) ? 1 + (int)g.below(8) : 0); sticky.push_back(g.chance(1, 3)); }
    sim::run([&] {
        for (size_t i = 0; i < plan.size(); ++i) {
            Op& o = plan[i]; bool failed = false; int64_t before = sim::live_blocks();
            try { sim::AllocGuard ag(at[i], sticky[i]); exec(w, o); } catch (const std::bad_alloc&) { failed = true; }
            if (failed) {
                sim::cover(((uint64_t)o.t * 64 + (uint64_t)at[i]) * 64 + (uint64_t)o.v.kind * 8 + m.size());
                bool leak = sim::live_blocks() != before;
                State now = contents(w, names);
                if (now != m) sim::violation("a workspace operation that ran out of memory changed the workspace:" + show({o}));
                if (leak) sim::violation("a workspace operation that ran out of memory leaked memory:" + show({o}));
                size_t listed = 0; { std::ostringstream os; w.list_variables(os); listed = parse_list(os.str()).size(); }
                if (listed != m.size()) sim::violation("a failed workspace operation left a stray variable behind:" + show({o}));
            } else {
                if (!apply(m, o)) sim::violation("workspace result differs from the reference map:" + show({o}));
                if (contents(w, names) != m) sim::violation("workspace contents differ from the reference map after" + show({o}));
            }
        }
    });
}
// a failing client does not disturb, block or deadlock the others
SCENARIO_W(failing_client, 2)
{
    auto& g = sim::in(); std::vector<std::string> names = {"a", "b", "shared_variable_with_long_name"}; int next = 1; State s0; Workspace w;
    for (auto& n : names) if (g.chance(1, 2)) { Val v{(int)g.below(NK), next++}; store(w, n, v); s0[n] = v; }
    std::vector<Op> p1, p2; for (size_t i = 0; i < 4; ++i) { p1.push_back(random_op(next, names, false)); p2.push_back(random_op(next, names, false)); }
    std::vector<char> failed(p1.size(), 0); struct Toxic { int armed; Toxic(int a) : armed(a) {} Toxic(const Toxic& o) : armed(o.armed) { if (armed) throw std::runtime_error("copy failed"); } Toxic(Toxic&& o) : armed(o.armed) { if (armed) throw std::runtime_error("move failed"); } };
    sim::run([&] {
        sim::clients({[&] { for (size_t i = 0; i < p1.size(); ++i) {
                               if (p1[i].t == Op::STORE) { failed[i] = 1; try { Toxic t(1); w.store(p1[i].a, t); sim::violation("internal: copy did not fail"); } catch (const std::runtime_error&) {} }
                               else exec(w, p1[i]); } },
                      [&] { for (auto& o : p2) exec(w, o); }});
    });
    std::vector<Op> hist; for (size_t i = 0; i < p1.size(); ++i) if (!failed[i]) hist.push_back(p1[i]);
    for (auto& o : p2) hist.push_back(o);
    uint64_t end = 0; for (auto& o : hist) end = std::max(end, o.res);
    for (auto& n : names) { Op o; o.t = Op::GET; o.a = n; auto r = w.retrieve_any(n); o.ok = r.has_value(); if (o.ok) o.got = read(*r); o.inv = end + 1; o.res = end + 2; hist.push_back(o); }
    if (!linearizable(hist, s0)) sim::violation("a failing store disturbed the workspace:" + show(hist));
}
