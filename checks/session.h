// A session of the whole program (main.cpp, its registry of commands and its read-eval loop) against a reference interpreter;
// only terminal, disk, memory and scheduling are simulated. Used by C14 and C19.
#pragma once
#include "files.h"
#include <any>
#include <charconv>
#include <filesystem>
#include <iostream>
#include <map>
#include <optional>
#include <set>
using namespace files;
int td_main(int, char**);
namespace {
using U8 = Image<unsigned char>; using D = Image<double>; using C3 = Image<RGB>; using H3 = Image<HSV>; using RD = Image<RGB_DOUBLE>;
struct V { std::any a; double tol = 0; };
template <class T> const T* as(const V& v) { return std::any_cast<T>(&v.a); }
using State = std::map<std::string, V>;
using Files = std::map<std::string, std::optional<V>>;     // nullopt: contents unknown (a write to it failed)

// ---- the terminal
struct Out : std::streambuf {
    static constexpr size_t N = 1 << 20; char* b = (char*)::operator new(N); size_t n = 0; std::function<void()> first; bool armed = false;
    ~Out() { ::operator delete(b); }
    std::streamsize xsputn(const char* s, std::streamsize k) override { if (k > 0 && armed) { armed = false; first(); } size_t m = std::min((size_t)k, N - n); memcpy(b + n, s, m); n += m; return k; }
    int overflow(int c) override { if (c != EOF) { char x = (char)c; xsputn(&x, 1); } return 0; }
};
struct In : std::streambuf {
    std::function<bool(std::string&)> next; char buf[1 << 12];
    int underflow() override { std::string s; if (!next(s)) return EOF; s += '\n'; size_t k = std::min(s.size(), sizeof buf); memcpy(buf, s.data(), k); setg(buf, buf, buf + k); return (unsigned char)buf[0]; }
};
struct Term {
    Out out; In in; std::streambuf *o, *i;
    Term() { o = std::cout.rdbuf(&out); i = std::cin.rdbuf(&in); }
    ~Term() { std::cout.rdbuf(o); std::cin.rdbuf(i); }
};
bool has(const std::string& t, const std::string& s) { return t.find(s) != std::string::npos; }
bool says_failed(const std::string& t) { return has(t, "rror") || has(t, "Usage:") || has(t, "Unknown command") || has(t, "Warning: Memory variable"); }

const char* ext(const V& x) { return as<C3>(x) ? ".bmp" : as<D>(x) ? ".dbmp" : as<H3>(x) ? ".hsv" : nullptr; }
std::string clean(std::string s) { while (!s.empty() && (s.back() == '"' || s.back() == '\'')) s.pop_back(); size_t k = 0; while (k < s.size() && (s[k] == '"' || s[k] == '\'')) ++k; return s.substr(k); }
std::string lower(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
std::string N(size_t n) { return std::to_string(n); }
std::optional<V> decode(const std::string& path)
{
    std::string d; if (!sim::fs_get(path, d)) return {}; std::string e = lower(path.substr(path.rfind('.') + 1));
    Parsed p = e == "bmp" ? parse_bmp(d) : e == "ppm" ? parse_pnm(d) : e == "csv" ? parse_csv(d) : parse_doubles(d, e == "hsv" ? 3 : 1); if (p.s != Parsed::EXACT) return {};
    return e == "bmp" || e == "ppm" ? V{rgb(p.p)} : e == "hsv" ? V{hsv(p.p)} : V{dbl(p.p)};
}
// ---- the reference interpreter
struct Fail {}; struct Unknown {};   // Unknown: outside what the reference models; such lines are not issued
using Args = std::vector<std::string>;
size_t num(std::string s) { s = clean(s); size_t v = 0; if (s.empty()) throw Fail{}; for (char c : s) { if (c < '0' || c > '9') throw Fail{}; v = v * 10 + (size_t)(c - '0'); } return v; }
double real(std::string s) { s = clean(s); double v = 0; auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), v); (void)p; if (ec != std::errc()) throw Fail{}; return v; }
bool policy(const std::string& s) { return s == "seq" || s == "par" || s == "unseq" || s == "par_unseq"; }
std::string shown_number(double d) { std::ostringstream o; o << d; return o.str(); }
const std::set<std::string> CORE = {"append_element", "bicubic_resize", "constructRGB", "copy", "create_container", "dct2", "dct3", "erase_element", "gaussian_figure_2d", "get_element", "getBplane", "getGplane", "getRplane", "get_sift_potential_keypoint", "grid", "hsv2rgb", "idct2", "im2double", "im2uint8", "info", "lanczos_resample", "load_workspace", "multiply", "normalize", "ones", "print", "rand", "read", "remove", "rename", "rotate", "save_workspace", "sift_generate_octave", "subimage", "to_complex", "vars", "write", "zeros", "count", "help", "transform_container", "load_plugins", "batch_add_zeros", "test"};
std::vector<V> elements(const V& x) { std::vector<V> o; auto all = [&](auto* p) { if (p) for (auto& e : *p) o.push_back({e, x.tol}); }; all(as<std::vector<D>>(x)); all(as<std::vector<C3>>(x)); all(as<std::vector<H3>>(x)); all(as<std::vector<U8>>(x)); all(as<std::vector<RD>>(x)); return o; }
struct Model {
    State v; Files f; std::map<std::string, std::map<std::string, V>> bundles; std::string shown;   // shown: text the command must print
    std::set<std::string> maybe;                                                                    // commands that may have been added before a fault struck
    std::set<std::string> extra;                                                                    // commands added by plug-ins
    std::function<bool(Model&, const std::string&, const Args&)> more;                              // commands a check adds to the reference
    bool known(const std::string& c) const { return CORE.count(c) || extra.count(c); }
    const V& var(const std::string& s) { if (s.empty() || s[0] != '$' || !v.count(s.substr(1))) throw Fail{}; return v[s.substr(1)]; }
    V load(const std::string& s)
    {
        if (s[0] == '$') return var(s);
        std::string p = clean(s); if (std::filesystem::path(p).extension().empty()) p += ".bmp";
        auto it = f.find(p); if (it == f.end()) throw Fail{}; if (!it->second) throw Unknown{}; auto d = decode(p); if (!d) throw Unknown{}; return *d;
    }
    void save(const std::string& s, V x)
    {
        if (s[0] == '$') { v[s.substr(1)] = x; return; }
        const char* e = ext(x); if (!e || has(s, "nodir")) throw Fail{};
        std::filesystem::path p = clean(s); std::string low = lower(p.extension().string());
        if (low == ".csv" && as<D>(x)) { x.tol = std::max(x.tol, 2e-5); f[p.string()] = x; }
        else if (low == ".ppm" && as<C3>(x)) f[p.string()] = x;
        else f[(p.parent_path() / p.stem()).string() + e] = x;       // otherwise the type of the image decides about the format
    }
    template <class F> auto img(const V& x, F fn) -> V { if (auto p = as<D>(x)) return {fn(*p), x.tol}; if (auto p = as<C3>(x)) return {fn(*p), x.tol}; if (auto p = as<U8>(x)) return {fn(*p), x.tol}; if (auto p = as<H3>(x)) return {fn(*p), x.tol}; if (auto p = as<RD>(x)) return {fn(*p), x.tol}; throw Fail{}; }
    template <class F> auto vec(const V& x, F fn) -> V { if (auto p = as<std::vector<D>>(x)) return {fn(*p), x.tol}; if (auto p = as<std::vector<C3>>(x)) return {fn(*p), x.tol}; if (auto p = as<std::vector<H3>>(x)) return {fn(*p), x.tol}; if (auto p = as<std::vector<U8>>(x)) return {fn(*p), x.tol}; if (auto p = as<std::vector<RD>>(x)) return {fn(*p), x.tol}; throw Fail{}; }
    bool image(const V& x) { return as<D>(x) || as<C3>(x) || as<H3>(x) || as<U8>(x) || as<RD>(x); }
    const D& dbl_(const V& x) { auto p = as<D>(x); if (!p) { if (image(x)) throw Unknown{}; throw Fail{}; } return *p; }
    void out_var(const std::string& s) { if (s[0] != '$') throw Fail{}; }
    void run(const std::string& c, Args a0)
    {
        Args a; for (auto& s : a0) if (!policy(s)) a.push_back(s);
        auto need = [&](size_t n) { if (a.size() < n) throw Fail{}; };
        if (more && more(*this, c, a)) return;
        if (c == "ones" || c == "zeros") { need(3); size_t w = num(a[1]), hh = num(a[2]); save(a[0], {D(std::vector<double>(w * hh, c == "ones"), w, hh)}); }
        else if (c == "grid") {
            need(4); size_t w = num(a[1]), hh = num(a[2]), gs = num(a[3]); if (!gs) throw Fail{}; std::vector<RGB> p(w * hh);
            for (size_t i = 0; i < p.size(); ++i) for (auto& ch : p[i].channels) ch = i % w % gs && i / w % gs ? 255 : 0;
            save(a[0], {C3(p, w, hh)});
        }
        else if (c == "gaussian_figure_2d") { need(6); save(a[0], {gaussianFigure2D(num(a[1]), num(a[2]), num(a[3]), num(a[4]), (double)num(a[5]))}); }
        else if (c == "read") { need(1); std::string o = a.size() > 1 ? a[1] : "$" + std::filesystem::path(clean(a[0])).stem().string(); out_var(o); save(o, load(a[0])); }
        else if (c == "write") { need(2); V x = var(a[0]); if (a[1][0] == '$') v[a[1].substr(1)] = x; else save(a[1], x); }
        else if (c == "copy") { need(2); out_var(a[0]); out_var(a[1]); V x = var(a[0]); v[a[1].substr(1)] = x; }
        else if (c == "rename") { need(2); out_var(a[0]); out_var(a[1]); V x = var(a[0]); v.erase(a[0].substr(1)); v[a[1].substr(1)] = x; }
        else if (c == "remove") { need(1); if (a.size() == 1 && a[0] == "all") { v.clear(); return; } bool bad = false; for (auto& s : a) if (s[0] != '$' || !v.erase(s.substr(1))) bad = true; if (bad) throw Fail{}; }
        else if (c == "multiply") {
            need(3); double s = real(a[2]); V x = load(a[0]); if (s == 1 && !as<D>(x)) throw Unknown{};
            V y = img(x, [&]<class T>(const Image<T>& m) -> std::any { if constexpr (std::is_same_v<T, double>) { auto p = m.getImageData(); std::vector<double> q(p.begin(), p.end()); for (auto& e : q) e *= s; return D(q, m.getWidth(), m.getHeight()); } else throw Unknown{}; });
            y.tol = x.tol ? x.tol * std::abs(s) + 1e-12 : 0; save(a[1], y);
        }
        else if (c == "subimage") {
            need(6); size_t x0 = num(a[2]), y0 = num(a[3]), w = num(a[4]), hh = num(a[5]); V x = load(a[0]);
            save(a[1], img(x, [&]<class T>(const Image<T>& m) { if (x0 + w > m.getWidth() || y0 + hh > m.getHeight()) throw Fail{}; std::vector<T> p; for (size_t y = 0; y < hh; ++y) for (size_t k = 0; k < w; ++k) p.push_back(m.at_without_boundary_check(x0 + k, y0 + y)); return std::any(Image<T>(p, w, hh)); }));
        }
        else if (c == "getRplane" || c == "getGplane" || c == "getBplane") {
            need(2); size_t k = c[3] == 'R' ? 0 : c[3] == 'G' ? 1 : 2; V x = load(a[0]);
            save(a[1], img(x, [&]<class T>(const Image<T>& m) -> std::any { if constexpr (requires(T t) { t.channels; }) { using E = std::remove_cvref_t<decltype(T{}.channels[0])>; std::vector<E> p; for (auto& px : m.getImageData()) p.push_back(px.channels[k]); return Image<E>(p, m.getWidth(), m.getHeight()); } else throw Fail{}; }));
        }
        else if (c == "constructRGB") {
            need(4); V r = var(a[0]), g = var(a[1]), b = var(a[2]); auto *p = as<U8>(r), *q = as<U8>(g), *s = as<U8>(b); if (as<D>(r) && as<D>(g) && as<D>(b)) throw Unknown{}; if (!p || !q || !s || p->getSize() != q->getSize() || p->getSize() != s->getSize()) throw Fail{};
            std::vector<RGB> o(p->count()); for (size_t i = 0; i < o.size(); ++i) { o[i].channels[0] = p->getImageData()[i]; o[i].channels[1] = q->getImageData()[i]; o[i].channels[2] = s->getImageData()[i]; } save(a[3], {C3(o, p->getWidth(), p->getHeight())});
        }
        else if (c == "bicubic_resize") { need(4); size_t w = num(a[2]), hh = num(a[3]); V x = load(a[0]); if (x.tol > 0.1) throw Unknown{}; save(a[1], img(x, [&](const auto& m) -> std::any { return copyResizeBicubic(m, w, hh); })); }
        else if (c == "lanczos_resample") { need(4); size_t w = num(a[2]), hh = num(a[3]); int r = a.size() > 4 ? (int)num(a[4]) : 3; V x = load(a[0]); if (!as<D>(x)) throw Unknown{}; save(a[1], {lanczos_resample(*as<D>(x), w, hh, r), 1e-6 + x.tol * 100}); }
        else if (c == "im2double") {
            need(2); V x = load(a[0]);
            save(a[1], img(x, [&]<class T>(const Image<T>& m) -> std::any {
                if constexpr (std::is_same_v<T, RGB>) { std::vector<RGB_DOUBLE> p(m.count()); for (size_t i = 0; i < p.size(); ++i) for (int k = 0; k < 3; ++k) p[i].channels[k] = m.getImageData()[i].channels[k]; return RD(p, m.getWidth(), m.getHeight()); }
                else if constexpr (std::is_same_v<T, double>) throw Fail{};
                else if constexpr (std::is_same_v<T, unsigned char>) { std::vector<double> p(m.getImageData().begin(), m.getImageData().end()); return D(p, m.getWidth(), m.getHeight()); }
                else throw Unknown{}; }));
        }
        else if (c == "im2uint8") {   // for values that fit
            need(2); V x = load(a[0]); if (x.tol) throw Unknown{};
            save(a[1], img(x, [&]<class T>(const Image<T>& m) -> std::any {
                auto fits = [](double d) { return d >= 0 && d <= 255 && d == std::floor(d); };
                if constexpr (std::is_same_v<T, RGB_DOUBLE>) { std::vector<RGB> p(m.count()); for (size_t i = 0; i < p.size(); ++i) for (int k = 0; k < 3; ++k) { double d = m.getImageData()[i].channels[k]; if (!fits(d)) throw Unknown{}; p[i].channels[k] = (unsigned char)d; } return C3(p, m.getWidth(), m.getHeight()); }
                else if constexpr (std::is_same_v<T, double>) { std::vector<unsigned char> p; for (double d : m.getImageData()) { if (!fits(d)) throw Unknown{}; p.push_back((unsigned char)d); } return U8(p, m.getWidth(), m.getHeight()); }
                else throw Unknown{}; }));
        }
        else if (c == "normalize") {
            need(2); V x = load(a[0]); auto& d = dbl_(x); if (x.tol || !d.count()) throw Unknown{}; double lo = INFINITY, hi = -INFINITY; for (double y : d.getImageData()) { if (!std::isfinite(y)) throw Unknown{}; lo = std::min(lo, y); hi = std::max(hi, y); } if (!(hi > lo) || !std::isfinite(hi - lo)) throw Unknown{};
            std::vector<double> q; for (double y : d.getImageData()) q.push_back((y - lo) / (hi - lo)); save(a[1], {D(q, d.getWidth(), d.getHeight()), 1e-9});
        }
        else if (c == "dct2" || c == "idct2") { need(2); V x = load(a[0]); if (!as<D>(x)) throw Unknown{}; save(a[1], {c == "dct2" ? dct2(dbl_(x)) : idct2(dbl_(x)), 1e-6 + x.tol * 100}); }
        else if (c == "create_container") { need(2); out_var(a[1]); V x = load(a[0]); save(a[1], img(x, []<class T>(const Image<T>& m) { return std::any(std::vector<Image<T>>{m}); })); }
        else if (c == "append_element") { need(3); out_var(a[2]); V x = var(a[0]); out_var(a[1]); if (!v.count(a[1].substr(1))) throw Fail{}; V e = var(a[1]); V r = vec(x, [&]<class T>(const std::vector<T>& m) { auto p = as<T>(e); if (!p) throw Fail{}; auto o = m; o.push_back(*p); return std::any(o); }); r.tol = std::max(x.tol, e.tol); save(a[2], r); }
        else if (c == "get_element") { need(3); out_var(a[1]); size_t k = num(a[2]); V x = var(a[0]); save(a[1], vec(x, [&]<class T>(const std::vector<T>& m) { if (k >= m.size()) throw Fail{}; return std::any(m[k]); })); }
        else if (c == "erase_element") { need(3); out_var(a[1]); size_t k = num(a[2]); V x = var(a[0]); save(a[1], vec(x, [&]<class T>(const std::vector<T>& m) { if (k >= m.size()) throw Fail{}; auto o = m; o.erase(o.begin() + (long)k); return std::any(o); })); }
        else if (c == "transform_container") {   // each element on its own
            need(3); out_var(a[1]); V x = var(a[0]); auto es = elements(x); if (es.empty()) { if (as<std::vector<D>>(x) || as<std::vector<C3>>(x) || as<std::vector<H3>>(x) || as<std::vector<U8>>(x) || as<std::vector<RD>>(x)) throw Unknown{}; throw Fail{}; }
            static const std::set<std::string> ok = {"multiply", "subimage", "getRplane", "getGplane", "getBplane", "im2double", "im2uint8", "normalize", "hsv2rgb", "dct2", "idct2"}; if (!ok.count(a[2])) throw Unknown{};
            std::vector<V> rs; Args b = {"$e", "$o"}; b.insert(b.end(), a.begin() + 3, a.end()); for (auto& e : es) { Model t; t.v["e"] = e; t.run(a[2], b); rs.push_back(t.v.at("o")); }
            V r; for (auto& y : rs) r.tol = std::max(r.tol, y.tol); auto all = [&]<class T>(const T*) { if (r.a.has_value() || !as<T>(rs[0])) return; std::vector<T> o; for (auto& y : rs) { if (!as<T>(y)) throw Fail{}; o.push_back(*as<T>(y)); } r.a = o; };
            all((D*)nullptr); all((C3*)nullptr); all((H3*)nullptr); all((U8*)nullptr); all((RD*)nullptr); if (!r.a.has_value()) throw Unknown{}; save(a[1], r);
        }
        else if (c == "hsv2rgb") {
            need(2); V x = load(a[0]); auto fine = [](const H3& m) { for (auto& p : m.getImageData()) if (!(p.channels[0] >= 0 && p.channels[0] < 360 && p.channels[1] >= 0 && p.channels[1] <= 1 && p.channels[2] >= 0 && p.channels[2] <= 255)) throw Unknown{}; };
            if (auto p = as<H3>(x)) { fine(*p); save(a[1], {std::any(hsv2rgb(*p)), x.tol}); } else if (!elements(x).empty()) throw Unknown{}; else if (as<C3>(x) || as<RD>(x)) throw Unknown{}; else throw Fail{};
        }
        else if (c == "rotate") { need(3); double r = real(a[2]); V x = load(a[0]); if (x.tol || !as<D>(x)) { if (image(x)) throw Unknown{}; throw Fail{}; } Mute mute; save(a[1], {std::any(rotate_detail_shear_transformation(*as<D>(x), r)), 1e-9}); }
        else if (c == "sift_generate_octave") {
            need(2); out_var(a[1]); size_t n = a.size() > 2 ? num(a[2]) : 5; double sg = a.size() > 3 ? real(a[3]) : 1.6, k = a.size() > 4 ? real(a[4]) : std::numbers::sqrt2_v<double>; V x = load(a[0]); if (x.tol || !as<D>(x)) { if (image(x)) throw Unknown{}; throw Fail{}; }
            Mute mute; std::any r; try { r = SIFT_impl::generate_octave(*as<D>(x), n, sg, k); } catch (const std::exception&) { throw Fail{}; } save(a[1], {r, 1e-9});
        }
        else if (c == "dct3") {
            need(2); V x = load(a[0]); auto p = as<std::vector<D>>(x); if (!p) { if (image(x)) throw Fail{}; if (!elements(x).empty()) throw Unknown{}; throw Fail{}; } if (p->empty() || x.tol) throw Unknown{}; for (auto& m : *p) if (m.getSize() != p->front().getSize()) throw Unknown{};
            out_var(a[1]); Mute mute; save(a[1], {std::any(dct3(*p)), 1e-6});
        }
        else if (c == "rand") { static const std::set<std::string> e = {"knuth_b", "minstd_rand", "minstd_rand0", "mt19937", "mt19937_64", "ranlux24", "ranlux24_base", "ranlux48", "ranlux48_base"}; need(4); if (a.size() > 4) throw Unknown{}; size_t w = num(a[2]), hh = num(a[3]); if (!e.count(a[0])) throw Fail{}; save(a[1], {D(std::vector<double>(w * hh, 0.5), w, hh), 0.5}); }
        else if (c == "info") { need(1); V x = load(a[0]); img(x, [&]<class T>(const Image<T>& m) { shown += "Width:  " + N(m.getWidth()) + "\n  Height: " + N(m.getHeight()) + "\n"; return std::any(0); }); }
        else if (c == "print") {
            need(1); V x = load(a[0]);
            if (as<size_t>(x)) throw Unknown{};   // not among the types of the reduced build
            if (auto q = as<double>(x)) shown += "Printing scalar value for " + a[0] + ":\n" + shown_number(*q) + "\nDone.\n";
            else { img(x, [&](const auto&) { return std::any(0); }); shown += "Printing image content for " + a[0] + ":\n"; }
        }
        else if (c == "count") { need(2); V x = load(a[0]); double t = real(a[1]); auto& d = dbl_(x); if (x.tol) throw Unknown{}; size_t n = 0; for (double y : d.getImageData()) n += y == t; if (a.size() < 3) shown += "Count result: " + N(n) + "\n"; else { out_var(a[2]); v[a[2].substr(1)] = {std::any(n)}; } }
        else if (c == "save_workspace") { need(1); auto& b = bundles[a[0]]; for (auto& [n, x] : v) if (as<D>(x) || as<C3>(x) || as<H3>(x)) b[n] = x; }
        else if (c == "load_workspace") { need(1); if (!bundles.count(a[0])) throw Fail{}; for (auto& [n, x] : bundles[a[0]]) v[n] = x; }
        else if (c == "vars" || c == "help") {}
        else throw Fail{};
    }
};
// where a stage takes its input and output from a pipeline
std::map<std::string, std::pair<int, int>> IO_MORE;          // of the commands a check adds
std::pair<int, int> io(const std::string& c)
{
    if (auto it = IO_MORE.find(c); it != IO_MORE.end()) return it->second;
    static const std::map<std::string, std::pair<int, int>> t = {{"ones", {-1, 0}}, {"zeros", {-1, 0}}, {"grid", {-1, 0}}, {"gaussian_figure_2d", {-1, 0}}, {"read", {-1, 1}}, {"rand", {-1, 1}}, {"write", {0, -1}}, {"info", {0, -1}}, {"print", {0, -1}}, {"count", {0, 2}}, {"append_element", {0, 2}}, {"add", {0, 2}}, {"subtract", {0, 2}}, {"replace", {0, 3}}};
    auto it = t.find(c); if (it != t.end()) return it->second;
    for (const char* s : {"copy", "rename", "remove", "vars", "help", "constructRGB", "transform_container", "save_workspace", "load_workspace", "load_plugins"}) if (c == s) return {-1, -1};
    return {0, 1};
}
struct Stage { std::string c; Args a; };
struct Line { std::vector<Stage> s; std::string out; std::string raw; int fault = 0; uint32_t nth = 0; bool sticky = false; uint32_t rate = 0; };
std::string text(const Line& l)
{
    if (!l.raw.empty()) return l.raw; std::string t; auto& g = sim::in();
    for (auto& s : l.s) { if (!t.empty()) t += g.chance(1, 4) ? "|" : " | "; t += s.c; for (auto& x : s.a) t += (g.chance(1, 9) ? "  " : " ") + x; }
    if (!l.out.empty()) t += " | " + l.out;
    return t;
}
// the effect of a line in the reference; false: some stage fails
bool eval(Model& m, const Line& l)
{
    for (auto& s : l.s) if (!m.known(s.c)) return false;     // the line is rejected as a whole
    std::string prev; bool ok = true;
    for (size_t i = 0; i < l.s.size(); ++i) {
        auto [in, out] = io(l.s[i].c); Args a = l.s[i].a; std::string next = i + 1 < l.s.size() ? "$__pipe_" + N(i) : l.out; auto at = [&](int k) { auto it = a.begin(); for (; it != a.end() && (k > 0 || policy(*it)); ++it) if (!policy(*it)) --k; return it; };
        if (in >= 0 && !prev.empty()) a.insert(at(in), prev);
        if (out >= 0 && !next.empty()) a.insert(at(out), next);
        Model before = m; try { m.run(l.s[i].c, a); } catch (const Fail&) { bool part = l.s[i].c == "remove"; if (!part) m = before; ok = false; }
        prev = next;
    }
    for (size_t i = 0; i < l.s.size(); ++i) m.v.erase("__pipe_" + N(i));
    return ok;
}
// an arbitrary value near another
bool near(const V& x, const V& y)
{
    double tol = x.tol;
    auto cmp = [&]<class T>(const Image<T>& p, const Image<T>& q) { if (tol == 0) return eq(p, q); if constexpr (std::is_same_v<T, double>) { if (p.getSize() != q.getSize()) return false; for (size_t i = 0; i < p.count(); ++i) if (!(std::abs(p.getImageData()[i] - q.getImageData()[i]) <= tol * (1 + std::abs(p.getImageData()[i])))) return false; return true; } else return eq(p, q); };
    if (auto p = as<D>(x)) { auto q = as<D>(y); return q && cmp(*p, *q); } if (auto p = as<C3>(x)) { auto q = as<C3>(y); return q && cmp(*p, *q); } if (auto p = as<H3>(x)) { auto q = as<H3>(y); return q && cmp(*p, *q); }
    return false;
}
V gray(const V& x) { auto p = as<U8>(x); std::vector<RGB> o(p->count()); for (size_t i = 0; i < o.size(); ++i) for (auto& c : o[i].channels) c = p->getImageData()[i]; return {C3(o, p->getWidth(), p->getHeight())}; }
const char* NAMES[] = {"a", "b", "c", "img", "x_1", "out"};
std::string name() { return "$" + std::string(sim::in().pick(NAMES)); }
size_t small() { return 1 + sim::in().below(7); }
const char* FILES[] = {"/simfs/in1.bmp", "/simfs/in2.dbmp", "/simfs/in3.hsv", "/simfs/missing.bmp", "/simfs/in4.csv", "/simfs/in5.ppm", "/simfs/in6.CSV", "/simfs/IN7.PPM", "/simfs/in.8.dbmp", "/simfs/in9.BMP"};
const int FORMS[] = {BMP, DBMP, HSVF, -1, CSV, PPM3, CSV, PPM3, DBMP, BMP}; constexpr size_t NFILES = 10;
std::string infile() { auto& g = sim::in(); if (g.chance(1, 20)) { static const char* q[] = {"\"/simfs/in1.bmp\"", "'/simfs/in2.dbmp'", "/simfs/in1", "/simfs/in.8", "\"/simfs/in4.csv\""}; return g.pick(q); } return FILES[g.chance(1, 2) ? g.below(4) : g.below(NFILES)]; }
std::string outfile() { static const char* f[] = {"/simfs/o1.bmp", "/simfs/o2.dbmp", "/simfs/o3.hsv", "/simfs/nodir/o.bmp", "/simfs/o4.csv", "/simfs/o5.ppm", "/simfs/o6.CSV", "/simfs/o7.PPM", "/simfs/o.8.bmp", "/simfs/o.9.dbmp", "/simfs/o10", "\"/simfs/o11.bmp\"", "/simfs/o12.Bmp"}; return sim::in().pick(f); }
std::string anyfile() { return sim::in().chance(1, 6) ? outfile() : infile(); }
std::string pol() { static const char* p[] = {"", "", "", "seq", "par", "par_unseq", "unseq"}; return sim::in().pick(p); }
std::string factor() { auto& g = sim::in(); static const char* f[] = {"1.0", "1", "1.00000001", "0.99999999", "1e0", "1.5", "0.5", "-1", "-2", "10e-1", "1.25", "\"1\""}; return g.chance(1, 12) ? "abc" : g.chance(1, 3) ? g.pick(f) : N(g.below(5)); }
// a stage with its explicit arguments; in/out: leave the piped argument away
Stage stage(bool first, bool last, bool need_out)
{
    auto& g = sim::in(); Stage s; std::string p = pol(); auto P = [&] { if (!p.empty()) s.a.push_back(p); };
    auto I = [&] { if (first) s.a.push_back(g.chance(1, 8) ? anyfile() : name()); }; auto O = [&] { if (last && !need_out) s.a.push_back(g.chance(1, 5) ? outfile() : name()); };
    auto OV = [&] { if (last && !need_out) s.a.push_back(name()); };
    if (first && g.chance(3, 7)) switch (g.below(6)) {
    case 0: s.c = g.chance(1, 2) ? "ones" : "zeros"; O(); s.a.push_back(N(small())); s.a.push_back(N(small())); return s;
    case 1: s.c = "grid"; P(); O(); s.a.push_back(N(small())); s.a.push_back(N(small())); s.a.push_back(N(g.below(5))); return s;
    case 2: s.c = "gaussian_figure_2d"; O(); for (int i = 0; i < 4; ++i) s.a.push_back(N(small())); s.a.push_back(N(1 + g.below(3))); return s;
    default: s.c = "read"; s.a.push_back(anyfile()); if (last && !need_out && g.chance(3, 4)) s.a.push_back(name()); return s;
    }
    if (g.chance(1, 6)) switch (g.below(first ? 6 : 4)) {
    case 0: s.c = "hsv2rgb"; P(); if (first) s.a.push_back(g.chance(1, 3) ? "/simfs/in3.hsv" : name()); OV(); return s;
    case 1: { s.c = "rotate"; P(); I(); O(); static const char* q[] = {"0.3", "0.35", "0.7", "1.1", "0.05"}; s.a.push_back(g.pick(q)); return s; }
    case 2: s.c = "dct3"; P(); if (first) s.a.push_back(name()); OV(); return s;
    case 3: s.c = "sift_generate_octave"; I(); OV(); if (g.chance(2, 3)) s.a.push_back(N(2 + g.below(3))); if (s.a.size() && g.chance(1, 2) && s.a.back().size() == 1) { s.a.push_back(g.chance(1, 2) ? "0.5" : "0.8"); if (g.chance(1, 2)) s.a.push_back("1.2"); } return s;
    default: { static const char* e[] = {"knuth_b", "minstd_rand", "minstd_rand0", "mt19937", "mt19937_64", "ranlux24", "ranlux24_base", "ranlux48", "ranlux48_base", "nonsense"}; s.c = "rand"; s.a.push_back(g.pick(e)); O(); s.a.push_back(N(small())); s.a.push_back(N(small())); return s; }
    }
    switch (g.below(first && last ? 24 : g.chance(1, 6) ? 24 : 18)) {
    case 0: case 1: s.c = "multiply"; P(); I(); O(); s.a.push_back(factor()); return s;
    case 2: case 3: s.c = "subimage"; P(); I(); O(); for (int i = 0; i < 2; ++i) s.a.push_back(N(g.below(3))); for (int i = 0; i < 2; ++i) s.a.push_back(N(1 + g.below(4))); if (g.chance(1, 14)) s.a.pop_back(); return s;
    case 4: case 5: { static const char* c[] = {"getRplane", "getGplane", "getBplane"}; s.c = g.pick(c); P(); I(); O(); return s; }
    case 6: s.c = g.chance(1, 2) ? "bicubic_resize" : "lanczos_resample"; if (s.c[0] == 'l') P(); I(); O(); s.a.push_back(N(small())); s.a.push_back(N(small())); if (s.c[0] == 'l' && g.chance(1, 3)) s.a.push_back(N(2 + g.below(3))); return s;
    case 7: s.c = g.chance(1, 2) ? "dct2" : "idct2"; I(); O(); return s;
    case 8: s.c = "create_container"; I(); OV(); return s;
    case 9: s.c = g.chance(1, 2) ? "get_element" : "erase_element"; if (first) s.a.push_back(name()); OV(); s.a.push_back(N(g.below(3))); return s;
    case 10: s.c = "append_element"; if (first) s.a.push_back(name()); s.a.push_back(name()); OV(); return s;
    case 11: s.c = "count"; I(); s.a.push_back(N(g.below(3))); return s;
    case 12: if (!last) { s.c = "multiply"; I(); s.a.push_back("2"); return s; } s.c = "write"; if (first) s.a.push_back(name()); s.a.push_back(outfile()); return s;
    case 13: s.c = g.chance(1, 3) ? "print" : "info"; I(); return s;
    case 14: case 15: s.c = "im2double"; P(); I(); O(); return s;
    case 16: s.c = "im2uint8"; P(); I(); O(); return s;
    case 17: s.c = "normalize"; P(); I(); O(); return s;
    case 18: s.c = "copy"; s.a = {name(), name()}; return s;
    case 19: s.c = "rename"; s.a = {name(), name()}; return s;
    case 20: s.c = "remove"; s.a = {name()}; if (g.chance(1, 6)) s.a = {"all"}; return s;
    case 21: s.c = "constructRGB"; P(); s.a.insert(s.a.end(), {name(), name(), name(), name()}); return s;
    case 22: {
        s.c = "transform_container"; P(); s.a.insert(s.a.end(), {name(), name()}); static const char* c[] = {"multiply", "multiply", "subimage", "getRplane", "getBplane", "im2double", "im2uint8", "normalize", "hsv2rgb", "dct2"}; std::string k = g.pick(c); s.a.push_back(k);
        if (k == "multiply") s.a.push_back(g.chance(1, 3) ? "2.5" : N(1 + g.below(4))); if (k == "subimage") s.a.insert(s.a.end(), {N(g.below(2)), "0", "1", N(1 + g.below(2))}); return s;
    }
    default: s.c = g.chance(1, 2) ? "save_workspace" : "load_workspace"; s.a = {g.chance(1, 4) ? "/simfs/b2" : "/simfs/b1"}; return s;
    }
}
// lines made of what an optimiser may be tempted to merge
Line tempting()
{
    auto& g = sim::in(); Line l; size_t n = 1 + g.below(4);
    for (size_t i = 0; i < n; ++i) {
        Stage s; bool first = i == 0;
        switch (g.below(first ? 6 : 5)) {
        case 0: s.c = "dct2"; break; case 1: s.c = "idct2"; break;
        case 2: s.c = "multiply"; break;
        case 3: s.c = "copy"; s.a = {name(), name()}; if (!l.s.empty() && l.s.back().c == "copy" && g.chance(2, 3)) s.a[0] = l.s.back().a[1]; if (!l.s.empty() && g.chance(1, 4)) s.a[0] = "$__pipe_" + N(i - 1); break;
        case 4: s.c = "subimage"; break;
        default: s.c = "read"; s.a = {g.chance(1, 2) ? "/simfs/in2.dbmp" : anyfile()};
        }
        if (s.c != "copy" && s.c != "read") { if (first) s.a.push_back(g.chance(1, 3) ? "/simfs/in2.dbmp" : g.chance(1, 5) ? anyfile() : name()); if (i + 1 == n && g.chance(1, 2)) { s.a.push_back(g.chance(1, 3) ? outfile() : name()); l.out = "-"; } else if (g.chance(1, 8)) s.a.push_back(name()); }
        if (s.c == "multiply") s.a.push_back(g.chance(1, 2) ? g.chance(1, 2) ? "1" : "1.0" : factor()); if (s.c == "subimage") s.a.insert(s.a.end(), {"0", "0", N(1 + g.below(2)), "1"});
        std::string p = pol(); if (!p.empty() && (s.c == "multiply" || s.c == "subimage") && g.chance(1, 2)) s.a.insert(s.a.begin(), p);
        l.s.push_back(s);
    }
    l.out = l.out == "-" ? "" : g.chance(3, 4) ? name() : ""; if (n == 1 && l.s[0].c == "copy") l.out.clear();
    return l;
}
Line line()
{
    auto& g = sim::in(); if (g.chance(1, 6)) return tempting();
    Line l; size_t n = g.chance(2, 5) ? 2 + g.below(3) : 1; bool fin = n > 1 && g.chance(3, 4); if (n == 1 && g.chance(1, 6)) fin = true;
    for (size_t i = 0; i < n; ++i) l.s.push_back(stage(i == 0, i + 1 == n, fin)); if (fin) l.out = name();
    if (g.chance(1, 25)) l.s[g.below(n)].c = "no_such_command";
    return l;
}
// lines that belong together
std::vector<Line> recipe()
{
    auto& g = sim::in(); std::vector<Line> l; auto add = [&](std::string c, Args a) { Line x; a.erase(std::remove(a.begin(), a.end(), ""), a.end()); x.s.push_back({c, a}); l.push_back(x); };
    std::string a = name(), b = name(), c = name(), d = name(), o = name(), in = g.chance(1, 2) ? "/simfs/in1.bmp" : g.chance(1, 2) ? "/simfs/in5.ppm" : "/simfs/in2.dbmp";
    switch (g.below(5)) {
    case 0: add("read", {in, a}); add("getRplane", {pol(), a, b}); add("getGplane", {a, c}); add("getBplane", {pol(), a, d}); add("constructRGB", {pol(), b, c, d, o}); if (g.chance(1, 3)) add("constructRGB", {pol(), d, b, b, outfile()}); break;
    case 1: add("read", {"/simfs/in3.hsv", a}); add("create_container", {a, b}); if (g.chance(1, 2)) add("append_element", {b, a, b}); add("hsv2rgb", {pol(), g.chance(1, 2) ? a : b, o}); break;
    case 2: { add("read", {g.chance(1, 3) ? in : "/simfs/in2.dbmp", a}); add("create_container", {a, b}); for (size_t i = g.below(3); i--;) { if (g.chance(1, 2)) add("multiply", {a, a, N(2 + i)}); add("append_element", {b, a, b}); } Line t; t.s.push_back(stage(true, true, false)); t.s[0].c = "transform_container"; static const char* k[] = {"multiply", "subimage", "im2uint8", "dct2", "normalize", "im2double", "getGplane"}; std::string q = g.pick(k); t.s[0].a = {b, o, q}; if (q == "multiply") t.s[0].a.push_back(factor()); if (q == "subimage") t.s[0].a.insert(t.s[0].a.end(), {"0", "0", "1", N(1 + g.below(3))}); std::string p = pol(); if (!p.empty()) t.s[0].a.insert(t.s[0].a.begin(), p); l.push_back(t); add("get_element", {o, c, N(g.below(3))}); break; }
    case 3: add("read", {"/simfs/in2.dbmp", a}); add("create_container", {a, b}); for (size_t i = g.below(3); i--;) { add("multiply", {a, a, "3"}); add("append_element", {b, a, b}); } add("dct3", {pol(), b, o}); break;
    default: add("read", {"/simfs/in2.dbmp", a}); add("sift_generate_octave", {a, o, N(2 + g.below(3)), "0.5"}); add("get_element", {o, b, N(g.below(3))}); add("rotate", {pol(), a, c, "0.4"});
    }
    return l;
}
// an earlier line once more, with a number in it changed a little
Line again(const std::vector<Line>& l)
{
    auto& g = sim::in(); if (l.empty()) return line();
    Line x = l[g.below(l.size())]; x.fault = 0; if (!x.raw.empty()) return line();
    for (auto& s : x.s) for (auto& t : s.a) {
        bool num = !t.empty() && t.size() < 7 && t.find_first_not_of("0123456789.") == std::string::npos && std::count(t.begin(), t.end(), '.') < 2 && t != "."; if (!num || g.chance(1, 3)) continue;
        if (t.find('.') == std::string::npos) t = N(std::stoul(t) + 1); else if (std::stod(t) < 1.2) { char q[32]; snprintf(q, sizeof q, "%g", std::stod(t) + 0.05); t = q; }
    }
    return x;
}
Model start()
{
    auto& g = sim::in(); Model m; sim::fs_reset();
    for (size_t i = 0; i < NFILES; ++i) if (FORMS[i] >= 0) { Pic p = random_pic(FORMS[i]); while (p.v.size() > 200 || p.w < 1 || p.h < 1) p = random_pic(FORMS[i]); if (FORMS[i] == DBMP || FORMS[i] == HSVF || FORMS[i] == CSV) for (auto& x : p.v) x = (double)(g.chance(1, 2) ? g.range(0, 200) : g.range(-20, 20)); if (FORMS[i] == HSVF && g.chance(2, 3)) for (size_t k = 0; k < p.v.size(); ++k) p.v[k] = k % 3 == 0 ? (double)g.below(360) : k % 3 == 1 ? 0.25 * (double)g.below(5) : (double)g.below(256); std::string d = encode(FORMS[i], p); sim::fs_put(FILES[i], d); m.f[FILES[i]] = decode(FILES[i]); if (!m.f[FILES[i]]) { m.f.erase(FILES[i]); sim::fs_remove(FILES[i]); } }
    return m;
}
std::string list_names(const std::string& t) { std::string o; size_t p = 0; while ((p = t.find("  $", p)) != std::string::npos) { p += 3; o += t.substr(p, t.find_first_of(" :", p) - p) + " "; } return o; }
// every file a failed write may have left in an unknown state
void forget_files(Model& m, const Line& l)
{
    for (auto& s : l.s) for (auto& x0 : s.a) { std::string x = clean(x0); if (x.rfind("/simfs/o", 0) == 0) { m.f[x] = std::nullopt; std::filesystem::path p = x; for (const char* e : {".bmp", ".dbmp", ".hsv"}) m.f[(p.parent_path() / p.stem()).string() + e] = std::nullopt; } }
}
// what to type to see the value of a variable in the end
struct Probe { std::string cmd, expect; };
struct Probes {
    std::vector<Probe> p; std::map<std::string, V> want; size_t n = 0;
    void of(const std::string& nm, const V& x)
    {
        if (ext(x)) want[nm + ext(x)] = x;
        else if (as<U8>(x)) { std::string q = "probe" + N(n++); p.push_back({"constructRGB $" + nm + " $" + nm + " $" + nm + " $" + q, ""}); want[q + ".bmp"] = gray(x); }
        else if (auto r = as<RD>(x)) for (int k = 0; k < 3; ++k) { std::string q = "probe" + N(n++); p.push_back({std::string("get") + "RGB"[k] + "plane $" + nm + " $" + q, ""}); std::vector<double> d; for (auto& px : r->getImageData()) d.push_back(px.channels[k]); want[q + ".dbmp"] = {D(d, r->getWidth(), r->getHeight()), x.tol}; }
        else if (as<size_t>(x)) {}   // not among the types of the reduced build
        else if (auto s = as<double>(x)) p.push_back({"print $" + nm, "Printing scalar value for $" + nm + ":\n" + shown_number(*s) + "\n"});
        else { size_t i = 0; for (auto& e : elements(x)) { std::string q = "probe" + N(n++); p.push_back({"get_element $" + nm + " $" + q + " " + N(i++), ""}); of(q, e); } }
    }
};
std::function<void(const Line&)> arm_line;
// run a session of lines, each of them checked against the model
void session(Model m, std::vector<Line> lines, bool exit_cmd, std::function<void(size_t, const Line*, const std::string&, Model&, bool)> after_line = {})
{
    std::vector<std::string> txt; for (auto& l : lines) txt.push_back(text(l));
    Term term; size_t k = 0; int phase = 0; size_t mark = 0; std::optional<sim::AllocGuard> ag; int rc = -1; Probes probes; size_t probe = 0; std::string hist;
    auto produced = [&] { std::string t(term.out.b + mark, term.out.n - mark); mark = term.out.n; return t; };
    auto bad = [&](const std::string& s) { sim::violation(s + " | session: " + hist); };
    auto check_line = [&](size_t i, std::string t) {
        Line& l = lines[i]; bool fired = ((l.fault & 1) && sim::alloc_fault_fired()) || (l.fault == 2 && sim::fs_hard_faults() > 0); hist += (hist.empty() ? "" : " ; ") + txt[i] + (fired ? l.fault & 1 ? " [out of memory]" : " [disk fault]" : ""); if (hist.size() > 900) hist = "..." + hist.substr(hist.size() - 900);
        if (after_line) after_line(i, &l, t, m, fired);
        Model after = m; after.shown.clear(); bool ok = eval(after, l);
        bool failed = says_failed(t) && !(l.s.size() == 1 && l.s[0].c == "help");     // its text has the word Usage
        sim::cover((uint64_t)failed * 4 + (uint64_t)fired * 2 + ok);
        if (!fired) {
            if (ok && failed) bad("a command that must succeed reports failure: " + txt[i] + " -> " + t);
            if (!ok && !failed) bad("a command that cannot succeed reports no failure: " + txt[i] + " -> " + t);
            if (ok && !after.shown.empty() && !has(t, after.shown)) bad("wrong answer of " + txt[i] + ": expected " + after.shown + " got " + t);
            m = after;
        } else if (!failed) { if (!ok) bad("a command that cannot succeed reports no failure: " + txt[i]); m = after; }
        else forget_files(m, l);
        // files: complete where the command said so
        for (auto& [p, x] : m.f) if (x && p.rfind("/simfs/o", 0) == 0) { auto d = decode(p); if (!d || !near(*x, *d)) bad("after " + txt[i] + " the file " + p + " does not hold the image written to it"); }
        if (sim::fs_open_handles()) bad("file left open by " + txt[i]);
    };
    term.in.next = [&](std::string& s) -> bool {
        ag.reset(); std::string t = produced(); if (t.size() > 9 && t.ends_with("tinydip> ")) t.resize(t.size() - 9);
        if (phase == 0 && k > 0) check_line(k - 1, t); else if (phase == 0 && after_line) after_line(SIZE_MAX, nullptr, t, m, sim::fs_hard_faults() > 0);
        sim::fs_clear_faults();
        while (phase == 0 && k < lines.size()) { Model c = m, c2 = m; c2.extra.insert(m.maybe.begin(), m.maybe.end()); try { for (auto& x : lines[k].s) if (m.maybe.count(x.c) && lines[k].s.size() > 1) throw Unknown{}; eval(c, lines[k]); eval(c2, lines[k]); break; } catch (const Unknown&) { lines.erase(lines.begin() + (long)k); txt.erase(txt.begin() + (long)k); } }
        if (phase == 0 && k < lines.size()) {
            Line& l = lines[k]; s = txt[k]; ++k; { sim::AllocGuard none(0); }
            if (l.fault == 3) arm_line(l);      // the check itself decides when memory runs out
            if (l.fault == 1) { term.out.first = [&ag, &l] { ag.emplace(l.nth, l.sticky); }; term.out.armed = true; }
            if (l.fault == 2) { auto& c = sim::fs(); c.p_dir_err = l.rate / 2; c.p_read_err = l.rate; c.p_write_err = l.rate; c.p_open_err = l.rate / 2; c.p_close_err = l.rate / 2; }
            return true;
        }
        // probes: what do the variables hold in the end
        if (phase == 0) { phase = 1; s = "vars"; return true; }
        if (phase == 1) {
            phase = 2; std::string got = list_names(t), want; for (auto& [n, x] : m.v) want += n + " "; if (got != want) bad("the session holds the variables " + got + "instead of " + want);
            for (auto& [n, x] : m.v) probes.of(n, x);
            probes.p.push_back({"save_workspace /simfs/final", "saved successfully"});
        } else if (phase == 2 && probe > 0 && !has(t, probes.p[probe - 1].expect)) bad("a variable does not hold the value its commands gave it: " + probes.p[probe - 1].cmd + " -> " + t);
        if (phase == 2 && probe < probes.p.size()) { s = probes.p[probe++].cmd; return true; }
        if (phase == 2) { phase = 3; if (exit_cmd) { s = k % 2 ? "exit" : "quit"; return true; } }
        else if (phase == 3 && exit_cmd) bad("the session went on after exit");
        return false;
    };
    sim::run([&] { char nm[] = "tinydip"; char* av[] = {nm, nullptr}; rc = td_main(1, av); });
    if (rc != 0) bad("the session ended with exit status " + N((size_t)rc)); if (phase != 3) bad("the session ended before its input did");
    for (auto& [n, x] : probes.want) { auto d = decode("/simfs/final/" + n); if (!d) bad("variable lost: " + n); else if (!near(x, *d)) bad("a variable does not hold the value its commands gave it: " + n); }
    for (auto& p : sim::fs_list()) if (p.rfind("/simfs/final/", 0) == 0 && !probes.want.count(p.substr(13))) bad("a variable nobody stored: " + p.substr(13));
}
} // namespace
