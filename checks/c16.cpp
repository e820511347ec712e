// C16: any number of threads may use the library at once, and no call leaves anything behind that changes a later one.
#include "c16_ops.h"
#include <map>
using namespace ops;
namespace ops { std::vector<Op>& registry() { static std::vector<Op> v; return v; } }
namespace {
std::vector<Op> all() { auto v = registry(); std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; }); return v; }
std::vector<In> inputs(size_t n)
{   // images that share a width, a height or neither
    auto& g = sim::in(); std::vector<In> v; size_t w = 5 + g.below(7), hh = 5 + g.below(7); v.emplace_back(w, hh);
    while (v.size() < n) { int k = (int)g.below(3); v.emplace_back(k == 1 ? 5 + g.below(7) : w, k == 0 ? 5 + g.below(7) : hh); }
    return v;
}
struct Call { size_t op, in; };
// several clients, each a sequence of calls on shared inputs; what each call gives alone is found out in a process of its own
void concurrent(size_t clients, size_t calls, size_t kinds, size_t sets)
{
    auto& g = sim::in(); auto ops = all(); auto in = inputs(sets); std::vector<size_t> use; for (size_t i = 0; i < kinds; ++i) use.push_back(g.below(ops.size()));
    std::vector<std::vector<Call>> plan(clients); for (auto& p : plan) for (size_t i = 0; i < calls; ++i) p.push_back({g.pick(use), g.below(in.size())});
    std::vector<std::vector<uint64_t>> want(clients, std::vector<uint64_t>(calls)), got = want; std::map<std::pair<size_t, size_t>, uint64_t> alone;
    Mute mu; std::vector<uint64_t> before; for (auto& x : in) before.push_back(x.sum());
    for (auto& p : plan) for (auto& c : p) if (!alone.contains({c.op, c.in})) alone[{c.op, c.in}] = fresh(ops[c.op].name, [&] { return ops[c.op].f(in[c.in]); });
    sim::run([&] {
        std::vector<std::function<void()>> b; for (size_t c = 0; c < clients; ++c) b.push_back([&, c] { for (size_t i = 0; i < calls; ++i) got[c][i] = ops[plan[c][i].op].f(in[plan[c][i].in]); });
        if (clients == 1) b[0](); else sim::clients(b);
    });
    for (size_t c = 0; c < clients; ++c) for (size_t i = 0; i < calls; ++i) if (got[c][i] != alone[{plan[c][i].op, plan[c][i].in}])
        sim::violation(std::string(ops[plan[c][i].op].name) + (clients > 1 ? " gives another result when other threads use the library at the same time" : " gives another result after other calls"));
    for (size_t i = 0; i < in.size(); ++i) if (in[i].sum() != before[i]) sim::violation("an operation changed an input it shares with other threads");
    for (auto& p : plan) for (auto& c : p) sim::cover(c.op * 16 + clients);
}
// the same variables hold other pixels from call to call, at the same addresses, as a program that reuses its buffers does
void reused_buffers()
{
    auto& g = sim::in(); auto ops = all(); size_t sets = 2 + g.below(3), w = 5 + g.below(7), hh = 5 + g.below(7), n = 4 + g.below(5); std::vector<In> in; for (size_t i = 0; i < sets; ++i) in.emplace_back(w, hh);
    std::vector<size_t> use; for (size_t i = 0, k = 1 + g.below(2); i < k; ++i) use.push_back(g.below(ops.size()));
    std::vector<Call> plan; for (size_t i = 0; i < n; ++i) plan.push_back({g.pick(use), g.below(sets)});
    Mute mu; std::map<std::pair<size_t, size_t>, uint64_t> alone; for (auto& c : plan) if (!alone.contains({c.op, c.in})) alone[{c.op, c.in}] = fresh(ops[c.op].name, [&] { return ops[c.op].f(in[c.in]); });
    sim::run([&] {
        In cur = in[0];
        auto put = [](auto& to, const auto& from) { auto& a = to.getImageData(); auto b = from.getImageData(); if (a.size() == b.size() && to.getSize() == from.getSize()) std::copy(b.begin(), b.end(), a.begin()); else to = from; };
        for (auto& c : plan) {
            const In& f = in[c.in]; cur.sigma = f.sigma; cur.t = f.t; cur.angle = f.angle; cur.n = f.n; cur.flag = f.flag;
            put(cur.d, f.d); put(cur.e, f.e); put(cur.k, f.k); put(cur.g, f.g); put(cur.c, f.c); put(cur.v, f.v); put(cur.cd, f.cd); put(cur.m, f.m);
            if (ops[c.op].f(cur) != alone[{c.op, c.in}]) sim::violation(std::string(ops[c.op].name) + " gives a result of the pixels its operand held before");
        }
    });
    for (auto& c : plan) sim::cover(c.op * 16);
}
} // namespace
SCENARIO_W(same_operation, 4) { concurrent(2 + sim::in().below(2), 1 + sim::in().below(2), 1, 1 + sim::in().below(2)); }
SCENARIO_W(different_operations, 4) { concurrent(2 + sim::in().below(3), 1 + sim::in().below(3), 2 + sim::in().below(4), 2); }
SCENARIO_W(one_after_another, 3) { auto& g = sim::in(); concurrent(1, g.chance(1, 10) ? 30 + g.below(40) : 3 + g.below(4), 1 + g.below(2), 3); }
SCENARIO_W(reuse_of_buffers, 2) { reused_buffers(); }
