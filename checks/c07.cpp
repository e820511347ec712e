// C07: the workspace is linearizable.
#include "ws.h"
using namespace ws;

static void clients(size_t nc, size_t per, size_t nn)
{
    auto& g = sim::in(); std::vector<std::string> names; for (size_t i = 0; i < nn; ++i) names.push_back(std::string(1, (char)('a' + i)) + (i % 2 ? "" : "_long_variable_name_beyond_sso"));
    int next = 1; std::vector<std::vector<Op>> plan(nc); for (auto& p : plan) for (size_t i = 0; i < per; ++i) p.push_back(random_op(next, names));
    State s0; Workspace w;
    for (auto& n : names) if (g.chance(1, 2)) { Val v{(int)g.below(NK), next++}; store(w, n, v); s0[n] = v; }
    sim::run([&] {
        std::vector<std::function<void()>> cl; for (size_t i = 0; i < nc; ++i) cl.push_back([&, i] { for (auto& o : plan[i]) exec(w, o); });
        sim::clients(cl);
    });
    std::vector<Op> hist; for (auto& p : plan) for (auto& o : p) hist.push_back(o);
    uint64_t end = 0; for (auto& o : hist) end = std::max(end, o.res);
    for (auto& n : names) { Op o; o.t = Op::GET; o.a = n; auto r = w.retrieve_any(n); o.ok = r.has_value(); if (o.ok) o.got = read(*r); o.inv = end + 1; o.res = end + 2; hist.push_back(o); }
    { Op o; o.t = Op::LIST; std::ostringstream os; w.list_variables(os); o.listed = parse_list(os.str()); o.inv = end + 1; o.res = end + 2; hist.push_back(o); }
    if (!linearizable(hist, s0)) sim::violation("no sequential order explains the results of concurrent workspace operations:" + show(hist));
    for (auto& o : hist) { sim::digest_u64(o.ok); sim::digest_u64((uint64_t)o.got.id); }
}
SCENARIO_W(two_clients, 3) { clients(2, 3 + sim::in().below(5), 1 + sim::in().below(3)); }
SCENARIO_W(three_clients, 3) { clients(3, 2 + sim::in().below(4), 1 + sim::in().below(4)); }
SCENARIO_W(four_clients, 2) { clients(4, 2 + sim::in().below(3), 1 + sim::in().below(3)); }
// one client, long history: every result is the model's, pointers point at the stored value, quoted names mean the same variable
SCENARIO_W(one_client, 2)
{
    auto& g = sim::in(); std::vector<std::string> names = {"a", "b", "c", "img_with_a_rather_long_name"}; int next = 1; State m; Workspace w;
    size_t n = 20 + g.below(60); std::vector<Op> plan; for (size_t i = 0; i < n; ++i) plan.push_back(random_op(next, names));
    sim::run([&] {
        for (size_t i = 0; i < plan.size(); ++i) {
            Op o = plan[i]; exec(w, o);
            State before = m;
            if (!apply(m, o)) sim::violation("workspace result differs from the reference map:" + show({o}));
            for (auto& [k, v] : m) {
                bool good = v.kind == DBL ? w.retrieve<double>(k) && *w.retrieve<double>(k) == v.id : v.kind == IMG ? w.retrieve<Image<double>>(k) && read(std::any(*w.retrieve<Image<double>>(k))) == v : v.kind == VEC ? w.retrieve<std::vector<double>>(k) && read(std::any(*w.retrieve<std::vector<double>>(k))) == v : w.retrieve<std::string>(k) && read(std::any(*w.retrieve<std::string>(k))) == v;
                if (!good) sim::violation("variable lost or changed after" + show({o}));
            }
            if (contents(w, names) != m) sim::violation("workspace contents differ from the reference map after" + show({o}));
        }
    });
}
// values are copies: changing the source afterwards does not change the variable, a copy handed out does not change either
SCENARIO(values_are_copies)
{
    auto im = image<double>(3, 2); auto keep = im; Workspace w; std::any out;
    sim::run([&] {
        w.store("x", im);
        sim::clients({[&] { w.store("y", 1.0); w.rename("y", "z"); w.remove("z"); }, [&] { out = *w.retrieve_any("x"); w.store("x", 2.0); w.remove("x"); }});
    });
    im.at_without_boundary_check(size_t(0), size_t(0)) = -1;
    auto* p = std::any_cast<Image<double>>(&out); sim::check(p, "type of a retrieved copy"); expect("retrieved copy", *p, keep);
    sim::check(!w.retrieve_any("x") && !w.retrieve_any("y") && !w.retrieve_any("z"), "removed variable still there");
}
