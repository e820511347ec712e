// The workspace and its sequential reference model.
#pragma once
#include "main.h"
#include "common.h"
#include <map>
#include <set>
#include <unordered_set>

namespace ws {
using namespace h;
// Values carry an id that makes every stored value unique; the kind is the dynamic type.
enum Kind { DBL, IMG, VEC, STR, NK };
struct Val { int kind; int id; bool operator==(const Val&) const = default; auto operator<=>(const Val&) const = default; };
inline std::any make(Val v)
{
    switch (v.kind) {
    case DBL: return std::any((double)v.id);
    case IMG: return std::any(Image<double>(std::vector<double>(6, (double)v.id), size_t(3), size_t(2)));
    case VEC: return std::any(std::vector<double>(4, (double)v.id));
    default: return std::any(std::string(40, (char)('a' + v.id % 26)) + std::to_string(v.id));
    }
}
// id of a value, or -1 if it is not one that was stored as a whole
inline Val read(const std::any& a)
{
    auto all = [](const auto& v) { for (auto x : v) if (x != v[0]) return -1; return (int)v[0]; };
    if (auto p = std::any_cast<double>(&a)) return {DBL, (int)*p};
    if (auto p = std::any_cast<Image<double>>(&a)) { if (p->count() != 6 || p->getWidth() != 3) return {IMG, -1}; auto d = p->getImageData(); return {IMG, all(d)}; }
    if (auto p = std::any_cast<std::vector<double>>(&a)) return {VEC, p->size() == 4 ? all(*p) : -1};
    if (auto p = std::any_cast<std::string>(&a)) { int id = p->size() > 40 ? atoi(p->c_str() + 40) : -1; return {STR, id >= 0 && *p == std::string(40, (char)('a' + id % 26)) + std::to_string(id) ? id : -1}; }
    return {NK, a.has_value() ? -2 : -3};
}
inline void store(Workspace& w, const std::string& n, Val v)
{
    switch (v.kind) {
    case DBL: w.store(n, (double)v.id); break;
    case IMG: { Image<double> im(std::vector<double>(6, (double)v.id), size_t(3), size_t(2)); w.store(n, std::move(im)); break; }
    case VEC: { std::vector<double> x(4, (double)v.id); w.store(n, x); break; }
    default: w.store(n, std::string(40, (char)('a' + v.id % 26)) + std::to_string(v.id));
    }
}
using State = std::map<std::string, Val>;

struct Op {
    enum T { STORE, GET, HAS, REMOVE, RENAME, CLEAR, LIST } t; std::string a, b; Val v{};
    std::string ra, rb; // the names as passed: a, b with any blanks and quotes around
    uint64_t inv = 0, res = 0;
    bool ok = false; Val got{}; std::vector<std::pair<std::string, int>> listed;
};
// apply to the model; false if the recorded outcome is impossible in this state
inline bool apply(State& s, const Op& o)
{
    auto it = s.find(o.a);
    switch (o.t) {
    case Op::STORE: s[o.a] = o.v; return true;
    case Op::GET: return it == s.end() ? !o.ok : o.ok && o.got == it->second;
    case Op::HAS: return o.ok == (it != s.end() && it->second.kind == o.v.kind);
    case Op::REMOVE: if (it == s.end()) return !o.ok; s.erase(it); return o.ok;
    case Op::RENAME: {
        if (it == s.end()) return !o.ok;
        if (!o.ok) return false;
        if (o.a != o.b) { Val v = it->second; s.erase(it); s[o.b] = v; }
        return true;
    }
    case Op::CLEAR: s.clear(); return true;
    case Op::LIST: {
        if (o.listed.size() != s.size()) return false;
        size_t i = 0;
        for (auto& [n, v] : s) { if (o.listed[i].first != n || (v.kind == DBL && o.listed[i].second != v.id)) return false; ++i; }
        return true;
    }
    }
    return false;
}
// Listing -> names in order with the value of numbers (-1 otherwise)
inline std::vector<std::pair<std::string, int>> parse_list(const std::string& t)
{
    std::vector<std::pair<std::string, int>> o; std::istringstream in(t); std::string l;
    while (std::getline(in, l)) {
        auto d = l.find('$'); if (d == std::string::npos) continue;
        auto e = l.find_first_of(" :", d); std::string n = l.substr(d + 1, e - d - 1); int v = -1;
        auto q = l.find("scalar value = "); if (q != std::string::npos && l.find("[double]") != std::string::npos) v = (int)atof(l.c_str() + q + 15);
        o.push_back({n, v});
    }
    return o;
}
inline std::string show(const std::vector<Op>& h)
{
    static const char* nm[] = {"store", "get", "has", "remove", "rename", "clear", "list"}; std::string s;
    for (auto& o : h) { s += std::string(" [") + std::to_string(o.inv) + "," + std::to_string(o.res) + "]" + nm[o.t] + "(" + o.a + (o.b.empty() ? "" : "," + o.b) + (o.t == Op::STORE ? "," + std::to_string(o.v.id) : "") + ")=" + (o.t == Op::GET && o.ok ? std::to_string(o.got.id) : o.t == Op::LIST ? std::to_string(o.listed.size()) + " vars" : o.ok ? "yes" : "no"); if (s.size() > 700) break; }
    return s;
}
// Wing & Gong search with memoisation
inline bool linearizable(const std::vector<Op>& h, State s0)
{
    std::set<std::pair<uint32_t, State>> seen;
    std::function<bool(uint32_t, const State&)> go = [&](uint32_t done, const State& s) {
        if (done == (1u << h.size()) - 1) return true;
        if (!seen.insert({done, s}).second) return false;
        uint64_t first = ~0ull; for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) first = std::min(first, h[i].res);
        for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].inv <= first) { State t = s; if (apply(t, h[i]) && go(done | 1u << i, t)) return true; }
        return false;
    };
    return go(0, s0);
}
// execute o on the real workspace
inline void exec(Workspace& w, Op& o)
{
    const std::string &a = o.ra.empty() ? o.a : o.ra, &b = o.rb.empty() ? o.b : o.rb;
    o.inv = sim::steps();
    switch (o.t) {
    case Op::STORE: store(w, a, o.v); o.ok = true; break;
    case Op::GET: { auto r = w.retrieve_any(a); o.ok = r.has_value(); if (o.ok) o.got = read(*r); break; }
    case Op::HAS: switch (o.v.kind) { case DBL: o.ok = w.retrieve<double>(a) != nullptr; break; case IMG: o.ok = w.retrieve<Image<double>>(a) != nullptr; break; case VEC: o.ok = w.retrieve<std::vector<double>>(a) != nullptr; break; default: o.ok = w.retrieve<std::string>(a) != nullptr; } break;
    case Op::REMOVE: o.ok = w.remove(a); break;
    case Op::RENAME: o.ok = w.rename(a, b); break;
    case Op::CLEAR: w.clear(); o.ok = true; break;
    case Op::LIST: { std::ostringstream os; w.list_variables(os); o.listed = parse_list(os.str()); o.ok = true; break; }
    }
    o.res = sim::steps();
}
inline std::string decorated(const std::string& n)
{
    auto& g = sim::in(); static const char* j[] = {" ", "\"", "'", "\t", "\r", "\n", "\v"}; std::string r = n;
    for (size_t k = g.below(4); k--;) r = j[g.below(7)] + r;
    for (size_t k = g.below(4); k--;) r += j[g.below(7)];
    return r;
}
inline Op random_op(int& next, const std::vector<std::string>& names, bool list = true)
{
    auto& g = sim::in(); Op o; uint64_t r = g.below(100);
    o.t = r < 34 ? Op::STORE : r < 52 ? Op::GET : r < 60 ? Op::HAS : r < 74 ? Op::REMOVE : r < 88 ? Op::RENAME : r < 92 ? Op::CLEAR : list ? Op::LIST : Op::GET;
    o.a = names[g.below(names.size())]; if (o.t == Op::RENAME) o.b = names[g.below(names.size())];
    if (g.chance(1, 4)) { o.ra = decorated(o.a); if (!o.b.empty()) o.rb = decorated(o.b); }
    o.v = {(int)g.below(NK), 0}; if (o.t == Op::STORE) o.v.id = next++;
    return o;
}
inline State contents(Workspace& w, const std::vector<std::string>& names)
{
    State s; for (auto& n : names) if (auto r = w.retrieve_any(n)) s[n] = read(*r);
    return s;
}
} // namespace ws
