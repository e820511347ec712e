// File formats, decoded and encoded independently of the library.
#pragma once
#include "common.h"
#include <cstdio>
#include <optional>

namespace files {
using namespace h;
enum Fmt { BMP, PPM3, PPM2, PPM1, DBMP, HSVF, CSV, CSVP, TEX, NF };
inline const char* fmt_name(int f) { static const char* n[] = {"bmp", "ppm (P3)", "pgm (P2)", "pbm (P1)", "dbmp", "hsv", "csv", "csv with precision", "latex"}; return n[f]; }
// a picture: w x h pixels of c numbers each, row 0 first as the library indexes them
struct Pic {
    size_t w = 0, h = 0, c = 0; std::vector<double> v;
    bool operator==(const Pic& o) const { if (w != o.w || h != o.h || c != o.c || v.size() != o.v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (!eqd(v[i], o.v[i])) return false; return true; }
    std::string size() const { return std::to_string(w) + "x" + std::to_string(h); }
};
inline Pic pic_of(const Image<RGB>& m) { if (m.getDimensionality() == 0) return Pic{0, 0, 3, {}}; Pic p{m.getWidth(), m.getHeight(), 3, {}}; for (size_t y = 0; y < p.h; ++y) for (size_t x = 0; x < p.w; ++x) for (auto c : m.at_without_boundary_check(x, y).channels) p.v.push_back(c); return p; }
inline Pic pic_of(const Image<HSV>& m) { if (m.getDimensionality() == 0) return Pic{0, 0, 3, {}}; Pic p{m.getWidth(), m.getHeight(), 3, {}}; for (size_t y = 0; y < p.h; ++y) for (size_t x = 0; x < p.w; ++x) for (auto c : m.at_without_boundary_check(x, y).channels) p.v.push_back(c); return p; }
inline Pic pic_of(const Image<double>& m) { if (m.getDimensionality() == 0) return Pic{0, 0, 1, {}}; Pic p{m.getWidth(), m.getHeight(), 1, {}}; for (size_t y = 0; y < p.h; ++y) for (size_t x = 0; x < p.w; ++x) p.v.push_back(m.at_without_boundary_check(x, y)); return p; }
inline Image<RGB> rgb(const Pic& p) { std::vector<RGB> v(p.w * p.h); for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < 3; ++k) v[i].channels[k] = (unsigned char)p.v[3 * i + k]; return Image<RGB>(v, p.w, p.h); }
inline Image<HSV> hsv(const Pic& p) { std::vector<HSV> v(p.w * p.h); for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < 3; ++k) v[i].channels[k] = p.v[3 * i + k]; return Image<HSV>(v, p.w, p.h); }
inline Image<double> dbl(const Pic& p) { return Image<double>(p.v, p.w, p.h); }

inline double number()
{
    auto& g = sim::in();
    if (g.chance(1, 24)) { static const double special[] = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), -2.5e-310, std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), 0.1, 1.0 / 3}; return g.pick(special); }
    switch (g.below(8)) { case 0: return 0; case 1: return -(double)g.below(1000) / 7; case 2: return std::bit_cast<double>(g.next() & 0x7fefffffffffffffull); case 3: return 1e300 * (double)g.below(9); case 4: return -0.0; default: return (double)g.below(100000) / 64; }
}
inline size_t fdim() { auto& g = sim::in(); return g.chance(1, 14) ? 10 + g.below(40) : 1 + g.below(9); }
// a random picture of the kind format f can hold
inline Pic random_pic(int f)
{
    auto& g = sim::in(); Pic p; p.w = fdim(); p.h = fdim(); p.c = f == DBMP || f == CSV || f == CSVP ? 1 : 3; p.v.resize(p.w * p.h * p.c);
    if (g.chance(1, 60)) { p.w = 90 + g.below(60); p.h = 20 + g.below(60); p.v.resize(p.w * p.h * p.c); }
    else if (g.chance(1, 60)) { p.w = 240 + g.below(400); p.h = 1 + g.below(3); if (g.chance(1, 2)) std::swap(p.w, p.h); p.v.resize(p.w * p.h * p.c); }   // sizes that need a second byte
    else if (g.chance(1, 1500)) { p.w = 65500 + g.below(100); p.h = 1; if (g.chance(1, 2)) std::swap(p.w, p.h); p.v.resize(p.w * p.h * p.c); }             // ... and a third
    for (auto& x : p.v) switch (f) { case DBMP: case HSVF: x = number(); break; case CSV: x = g.chance(1, 3) ? (double)g.range(-99999, 99999) / 10 : (double)g.range(-99999, 99999); break; case CSVP: x = (double)g.range(-9999, 9999) / 8; break; default: x = (double)(g.chance(1, 6) ? 0 : g.below(256)); }
    return p;
}
inline uint32_t le(const std::string& d, size_t o, int n) { uint32_t v = 0; for (int i = 0; i < n; ++i) v |= (uint32_t)(unsigned char)d[o + (size_t)i] << (8 * i); return v; }
inline void le(std::string& d, size_t o, int n, uint32_t v) { for (int i = 0; i < n; ++i) d[o + (size_t)i] = (char)(v >> (8 * i)); }

// what a file says
struct Parsed { enum { FAIL, EXACT, ANY } s = FAIL; Pic p; std::vector<bool> free; };   // free: pixels about which the file is ambiguous
inline Parsed parse_bmp(const std::string& d)
{
    Parsed r; if (d.size() < 54) return r;
    int32_t w = (int32_t)le(d, 18, 4), hh = (int32_t)le(d, 22, 4); uint32_t bits = le(d, 28, 2), off = le(d, 10, 4), hs = le(d, 14, 4);
    if (w < 0 || (bits != 24 && bits != 8)) return r;
    uint64_t rows = (uint64_t)(hh < 0 ? -(int64_t)hh : hh), stride = bits == 24 ? ((uint64_t)w * 3 + 3) / 4 * 4 : ((uint64_t)w + 3) / 4 * 4, need = bits == 24 ? (uint64_t)w * 3 : (uint64_t)w;
    if (!w || !rows) { r.s = Parsed::ANY; return r; }
    if (rows > d.size() || (uint64_t)w > d.size() || off + stride * (rows - 1) + need > d.size()) return r;
    std::string pal(1024, '\0'); size_t pn = 0;
    if (bits == 8) { if (hs < 40 || (uint64_t)14 + hs > off) { r.s = Parsed::ANY; return r; } pn = std::min<size_t>(1024, off - 14 - hs); pal.replace(0, pn, d, 14 + hs, pn); }
    r.p = Pic{(size_t)w, (size_t)rows, 3, std::vector<double>((size_t)w * rows * 3)}; r.free.assign(r.p.v.size(), false); r.s = Parsed::EXACT;
    for (size_t y = 0; y < rows; ++y) for (size_t x = 0; x < (size_t)w; ++x) for (size_t c = 0; c < 3; ++c) {
        size_t ry = hh < 0 ? (size_t)rows - 1 - y : y, i = ((y * (size_t)w) + x) * 3 + c;
        if (bits == 24) r.p.v[i] = (unsigned char)d[off + ry * stride + 3 * x + 2 - c];
        else { size_t k = (unsigned char)d[off + ry * stride + x]; if (4 * k + 4 > pn) r.free[i] = true; r.p.v[i] = (unsigned char)pal[4 * k + 2 - c]; }
    }
    return r;
}
inline Parsed parse_doubles(const std::string& d, size_t c)
{
    Parsed r; if (d.size() < 54) return r;
    int32_t w = (int32_t)le(d, 18, 4), hh = (int32_t)le(d, 22, 4); if (w < 0 || hh < 0) return r;
    if (!w || !hh) { r.s = Parsed::ANY; return r; }
    uint64_t stride = (uint64_t)w * c + (uint64_t)w % 8; if ((uint64_t)w > d.size() || (uint64_t)hh > d.size() || 54 + 8 * (stride * (uint64_t)(hh - 1) + (uint64_t)w * c) > d.size()) return r;
    r.s = Parsed::EXACT; r.p = Pic{(size_t)w, (size_t)hh, c, {}};
    for (size_t y = 0; y < r.p.h; ++y) for (size_t x = 0; x < r.p.w; ++x) for (size_t k = 0; k < c; ++k) { double v; memcpy(&v, d.data() + 54 + 8 * (y * stride + x * c + (c == 3 ? 2 - k : 0)), 8); r.p.v.push_back(v); }
    r.free.assign(r.p.v.size(), false);
    return r;
}
inline bool is_ws(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }
inline Parsed parse_pnm(const std::string& d)
{
    Parsed r; std::vector<std::string> t; bool odd = false;
    for (size_t i = 0; i < d.size();) {
        if (is_ws(d[i])) { ++i; continue; }
        size_t j = i; while (j < d.size() && !is_ws(d[j])) ++j;
        if (d[i] == '#') { while (j < d.size() && d[j - 1] != '\n' && d[j] != '\n') ++j; if (j < d.size() && d[i] == '#' && d[j] != '\n') ++j; size_t e = d.find('\n', i); i = e == std::string::npos ? d.size() : e + 1; continue; }
        t.push_back(d.substr(i, j - i)); if (t.back().find('#') != std::string::npos) odd = true; i = j;
    }
    if (t.empty() || (t[0] != "P1" && t[0] != "P2" && t[0] != "P3")) { r.s = odd || t.empty() || t[0].size() > 2 ? Parsed::ANY : Parsed::FAIL; if (t.empty()) r.s = Parsed::FAIL; return r; }
    auto num = [&](const std::string& s, bool& plain) -> std::optional<long> { plain = !s.empty() && s.size() < 9; for (char ch : s) if (ch < '0' || ch > '9') plain = false; char* e; long v = strtol(s.c_str(), &e, 10); if (e == s.c_str()) return std::nullopt; return v; };
    size_t hn = t[0] == "P1" ? 3 : 4; if (t.size() < hn) return r;
    long hv[4] = {0, 0, 0, 1}; for (size_t i = 1; i < hn; ++i) { bool plain; auto v = num(t[i], plain); if (!v) return r; if (!plain) { r.s = Parsed::ANY; return r; } hv[i] = *v; }
    size_t w = (size_t)hv[1], hh = (size_t)hv[2]; long mx = hv[3]; if (mx < 1) { return r; }
    if (!w || !hh) { r.s = Parsed::ANY; return r; }
    size_t c = t[0] == "P3" ? 3 : 1; if (w > 100000000 / hh || t.size() - hn < w * hh * c) { r.s = Parsed::FAIL; return r; }
    int bits = 0; while ((1l << (bits + 1)) - 1 <= mx) ++bits; bool pow2 = (1l << bits) - 1 == mx && mx <= 65535;
    r.p = Pic{w, hh, 3, std::vector<double>(w * hh * 3)}; r.free.assign(w * hh * 3, !pow2 && t[0] != "P1"); r.s = Parsed::EXACT;
    for (size_t i = 0; i < w * hh * c; ++i) {
        bool plain; auto v = num(t[hn + i], plain); if (!v) { r.s = Parsed::FAIL; return r; }
        size_t px = c == 3 ? i / 3 : i, y = px / w, x = px % w, b = ((hh - 1 - y) * w + x) * 3; long o = t[0] == "P1" ? *v == 0 : bits <= 8 ? *v << (8 - bits) : *v >> (bits - 8); bool fr = !plain || *v > mx;
        if (!plain && t[hn + i].size() > 9) { r.s = Parsed::ANY; return r; }
        for (size_t k = 0; k < 3; ++k) if (c == 1 || k == i % 3) { r.p.v[b + k] = (double)(unsigned char)o; if (fr) r.free[b + k] = true; }
    }
    if (odd) r.s = Parsed::ANY;
    return r;
}
inline Parsed parse_csv(const std::string& d)
{
    Parsed r; std::vector<std::vector<std::string>> rows; std::istringstream in(d); std::string l;
    while (std::getline(in, l)) if (!l.empty()) { std::vector<std::string> c; std::istringstream s(l); std::string x; while (std::getline(s, x, ',')) c.push_back(x); rows.push_back(c); }
    if (rows.empty()) { r.s = Parsed::ANY; return r; }
    r.p = Pic{rows[0].size(), rows.size(), 1, {}}; r.s = Parsed::EXACT;
    for (auto& row : rows) {
        if (row.size() != r.p.w) { r.s = Parsed::FAIL; return r; }
        for (auto& x : row) { char* e; errno = 0; double v = strtod(x.c_str(), &e); if (e == x.c_str()) { r.s = Parsed::FAIL; return r; } r.p.v.push_back(v); r.free.push_back(*e || errno == ERANGE || e != x.c_str() + x.size()); if (errno == ERANGE) r.s = Parsed::ANY; }
    }
    for (auto& row : rows) for (auto& x : row) { char* e; errno = 0; strtod(x.c_str(), &e); if (errno == ERANGE) r.s = Parsed::ANY; }
    return r;
}
inline Parsed parse(int f, const std::string& d) { switch (f) { case BMP: return parse_bmp(d); case PPM1: case PPM2: case PPM3: return parse_pnm(d); case DBMP: return parse_doubles(d, 1); case HSVF: return parse_doubles(d, 3); default: return parse_csv(d); } }

// what writing p in format f has to store
inline Pic stored(int f, Pic p)
{
    if (f == PPM2) for (size_t i = 0; i < p.v.size(); ++i) p.v[i] = p.v[i - i % 3];
    if (f == PPM1) for (size_t i = 0; i < p.v.size(); i += 3) p.v[i] = p.v[i + 1] = p.v[i + 2] = p.v[i] != 0;
    return p;
}
inline std::string latex(const Pic& p)
{
    std::string s = "\\begin{tikzpicture}[x=1cm,y=0.4cm]\n"; auto n = [](double v) { return std::to_string((int)v); };
    for (size_t y = 0; y < p.h; ++y) for (size_t x = 0; x < p.w; ++x) { const double* c = &p.v[(y * p.w + x) * 3]; s += "\\draw (" + std::to_string(x) + "," + std::to_string(y) + ") node[anchor=south,fill={rgb:red," + n(c[0]) + ";green," + n(c[1]) + ";blue," + n(c[2]) + "}] {};\n"; }
    return s + "\\end{tikzpicture}\n";
}
// does the file hold p completely?
inline bool file_holds(int f, const std::string& d, const Pic& p, int prec = 3)
{
    if (f == TEX) return d == latex(p);
    auto r = parse(f, d); if (r.s != Parsed::EXACT) return false;
    if (f == CSVP) { Pic q = p; for (auto& v : q.v) { char b[64]; snprintf(b, sizeof b, "%.*f", prec, v); v = strtod(b, nullptr); } return r.p == q; }
    return r.p == stored(f, p);
}
inline std::string path_of(int f, const std::string& base) { static const char* e[] = {".bmp", ".ppm", ".ppm", ".ppm", ".dbmp", ".hsv", ".csv", ".csv", ".tex"}; return base + e[f]; }
// call the library's writer; false or an exception is a reported failure. how: which overload
inline bool lib_write(int f, const std::string& base, const Pic& p, int how, int prec = 3)
{
    std::string path = path_of(f, base);
    switch (f) {
    case BMP: return how % 2 ? bmp_write(base, rgb(p)) == 0 : bmp_write(base.c_str(), rgb(p)) == 0;
    case PPM3: pnm::write(rgb(p), path); return true;
    case PPM2: pnm::write(rgb(p), path, "P2"); return true;
    case PPM1: pnm::write(rgb(p), path, "P1"); return true;
    case DBMP: return double_image::write(base.c_str(), dbl(p)) == 0;
    case HSVF: return hsv_write(base.c_str(), hsv(p)) == 0;
    case CSV: case CSVP: {
        auto m = dbl(p); int q = f == CSV ? -1 : prec;
        if (how % 3 == 0) double_image::write_to_csv(path.c_str(), m, q);
        else if (how % 3 == 1) double_image::write_to_csv(std::execution::par, path.c_str(), m, q);
        else double_image::write_to_csv(std::execution::seq, path, m, q);
        return true;
    }
    default: print_with_latex_to_file(rgb(p), path); return true;
    }
}
inline Pic lib_read(int f, const std::string& path, int how)
{
    switch (f) {
    case BMP: return how % 2 ? pic_of(bmp_read(path.c_str(), true)) : pic_of(bmp_read(path.substr(0, path.size() - 4).c_str(), false));
    case PPM3: case PPM2: case PPM1: return how % 3 == 0 ? pic_of(pnm::read(path)) : how % 3 == 1 ? pic_of(pnm::read(std::execution::par, path)) : pic_of(pnm::read(std::execution::seq, path));
    case DBMP: return how % 2 ? pic_of(double_image::read(path.c_str(), true)) : pic_of(double_image::read(path.substr(0, path.size() - 5).c_str(), false));
    case HSVF: return how % 2 ? pic_of(hsv_read(path.c_str(), true)) : pic_of(hsv_read(path.substr(0, path.size() - 4).c_str(), false));
    default: return how % 3 == 0 ? pic_of(double_image::read_from_csv(path.c_str())) : how % 3 == 1 ? pic_of(double_image::read_from_csv(std::execution::par, path.c_str())) : pic_of(double_image::read_from_csv(std::execution::seq, path.c_str()));
    }
}
// a valid file of format f, written by this harness; variants within the format are chosen by the seed
inline std::string encode(int f, const Pic& p)
{
    auto& g = sim::in(); std::string d;
    switch (f) {
    case BMP: {
        bool pal = g.chance(1, 3), flip = g.chance(1, 3); size_t extra = g.chance(1, 4) ? 4 * (1 + g.below(20)) : 0;
        size_t pn = pal ? g.chance(1, 3) ? 2 + g.below(254) : 256 : 0, off = 54 + 4 * pn + (pal ? 0 : extra), stride = pal ? (p.w + 3) / 4 * 4 : (3 * p.w + 3) / 4 * 4;
        d.assign(off + stride * p.h, '\0'); d[0] = 'B'; d[1] = 'M'; le(d, 2, 4, (uint32_t)d.size()); le(d, 10, 4, (uint32_t)off); le(d, 14, 4, 40); le(d, 18, 4, (uint32_t)p.w); le(d, 22, 4, flip ? (uint32_t)-(int)p.h : (uint32_t)p.h); le(d, 26, 2, 1); le(d, 28, 2, pal ? 8 : 24);
        for (size_t i = 54; i < off; ++i) d[i] = (char)g.next();
        for (size_t y = 0; y < p.h; ++y) for (size_t x = 0; x < p.w; ++x) { size_t ry = flip ? p.h - 1 - y : y; if (pal) d[off + ry * stride + x] = (char)g.below(pn); else for (size_t c = 0; c < 3; ++c) d[off + ry * stride + 3 * x + 2 - c] = (char)(int)p.v[(y * p.w + x) * 3 + c]; }
        return d;
    }
    case DBMP: case HSVF: {
        size_t c = f == HSVF ? 3 : 1, stride = p.w * c + p.w % 8; d.assign(54 + 8 * stride * p.h, '\0'); d[0] = 'B'; d[1] = 'M'; le(d, 10, 4, 54); le(d, 14, 4, 40); le(d, 18, 4, (uint32_t)p.w); le(d, 22, 4, (uint32_t)p.h); le(d, 26, 2, 1); le(d, 28, 2, 24);
        for (size_t y = 0; y < p.h; ++y) for (size_t x = 0; x < p.w; ++x) for (size_t k = 0; k < c; ++k) memcpy(&d[54 + 8 * (y * stride + x * c + (c == 3 ? 2 - k : 0))], &p.v[(y * p.w + x) * c + k], 8);
        return d;
    }
    case PPM1: case PPM2: case PPM3: {
        int bits = f == PPM1 ? 1 : g.chance(1, 2) ? 8 : 1 + (int)g.below(12);
        auto sep = [&] { static const char* s[] = {" ", "\n", "  ", "\t", "\r\n"}; d += s[g.below(5)]; if (g.chance(1, 12)) { if (g.chance(1, 2) && d.back() != '\n') d += '\n'; static const char* t[] = {"# a comment 12 34\n", "#comment\n", "#\n", "## 1 # 2\n"}; if (g.chance(1, 40)) d += "# " + std::string(100 + g.below(20000), '7') + "\n"; else d += g.pick(t); } };
        d = f == PPM1 ? "P1" : f == PPM2 ? "P2" : "P3"; sep(); d += std::to_string(p.w); sep(); d += std::to_string(p.h); sep(); if (f != PPM1) { d += std::to_string((1 << bits) - 1); sep(); }
        for (size_t y = 0; y < p.h; ++y) for (size_t x = 0; x < p.w; ++x) for (size_t c = 0; c < (f == PPM3 ? 3u : 1u); ++c) { d += std::to_string((unsigned)p.v[(y * p.w + x) * 3 + c] & ((1u << bits) - 1)); sep(); }
        return d;
    }
    default:
        for (size_t y = 0; y < p.h; ++y) { for (size_t x = 0; x < p.w; ++x) { char b[64]; snprintf(b, sizeof b, "%.17g", p.v[y * p.w + x]); d += (x ? "," : "") + std::string(b); } d += '\n'; if (g.chance(1, 12)) d += '\n'; }
        return d;
    }
}
} // namespace files
