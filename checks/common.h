// Helpers shared by the scenario files: seeded images, bit-exact comparison, differential execution.
#pragma once
#include "image_operations.h"
#include "image_io.h"
#include "sim.h"
#include "vfs.h"
#include <bit>
#include <complex>
#include <cstring>
#include <functional>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <cerrno>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace h {
using namespace TinyDIP;
using std::size_t;

inline size_t dim(size_t small = 14, size_t big = 48, bool slow = false)
{
    auto& g = sim::in(); static int roomy = -1; if (roomy < 0) roomy = g.chance(1, 60);   // some runs: thousands of pixels
    if (roomy && !slow) return small >= 40 ? small * 20 + g.below(small * 20) : small * 4 + g.below(small * 4);
    if (g.chance(1, 12)) return 1 + g.below(big);
    if (g.chance(1, 10)) return 1 + g.below(2);
    return 1 + g.below(small);
}
template <class T> T val()
{
    auto& g = sim::in();
    if constexpr (std::is_same_v<T, bool>) return g.chance(1, 2);
    else if constexpr (std::is_integral_v<T>) {
        if (sizeof(T) == 1) return g.chance(1, 16) ? (T)(g.chance(1, 2) ? 0 : 255) : (T)g.next();
        return (T)g.range(std::is_signed_v<T> ? -1000 : 0, 1000);
    }
    else if constexpr (std::is_floating_point_v<T>) return g.chance(1, 8) ? (T)g.range(-2400, 2400) / (T)8 : (T)g.range(0, 255);   // exact in sums
    else if constexpr (std::is_same_v<T, std::complex<double>>) return {(double)g.range(-50, 50), (double)g.range(-50, 50)};
    else { T t; bool gray = g.chance(1, 8); for (auto& c : t.channels) if (gray && &c != &t.channels[0]) c = t.channels[0]; else c = val<std::remove_cvref_t<decltype(c)>>(); return t; }
}
template <class T> Image<T> image(size_t w, size_t hh)
{
    std::vector<T> v(w * hh); bool flat = sim::in().chance(1, 60);                                   // now and then one colour only
    for (size_t i = 0; i < v.size(); ++i) v[i] = flat && i ? (T)v[0] : val<T>();
    return Image<T>(v, w, hh);
}
template <class T> Image<T> image()
{
    if (sim::in().chance(1, 150)) return image<T>(60 + sim::in().below(90), 60 + sim::in().below(90));   // now and then a large one
    if (sim::in().chance(1, 80)) { size_t a = 240 + sim::in().below(260), b = 1 + sim::in().below(3); return sim::in().chance(1, 2) ? image<T>(a, b) : image<T>(b, a); }   // a side that does not fit a byte
    size_t w = dim(), hh = dim(); return image<T>(w, hh);
}

// bit-exact equality
template <class T> bool eq(const T& a, const T& b);
inline bool eqd(double a, double b) { return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b) || (a != a && b != b); }
template <class T> struct is_img : std::false_type {};
template <class T> struct is_img<Image<T>> : std::true_type {};
template <class T> struct is_vec : std::false_type {};
template <class T, class A> struct is_vec<std::vector<T, A>> : std::true_type {};
template <class T> struct is_tup : std::false_type {};
template <class... A> struct is_tup<std::tuple<A...>> : std::true_type {};
template <class A, class B> struct is_tup<std::pair<A, B>> : std::true_type {};
template <class T, size_t N> struct is_tup<std::array<T, N>> : std::true_type {};
template <class T> bool eq(const T& a, const T& b)
{
    if constexpr (is_img<T>::value) {
        if (a.getSize() != b.getSize()) return false;
        auto x = a.getImageData(); auto y = b.getImageData();
        return eq(x, y);
    } else if constexpr (is_vec<T>::value) {
        if (a.size() != b.size()) return false;
        for (size_t i = 0; i < a.size(); ++i) { typename T::value_type p = a[i], q = b[i]; if (!eq(p, q)) return false; }
        return true;
    } else if constexpr (is_tup<T>::value) {
        return [&]<size_t... I>(std::index_sequence<I...>) { return (eq(std::get<I>(a), std::get<I>(b)) && ...); }(std::make_index_sequence<std::tuple_size_v<T>>{});
    } else if constexpr (std::is_same_v<T, float>) return eqd(a, b);
    else if constexpr (std::is_same_v<T, double>) return eqd(a, b);
    else if constexpr (std::is_same_v<T, long double>) return a == b || (a != a && b != b);
    else if constexpr (std::is_same_v<T, std::complex<double>>) return eqd(a.real(), b.real()) && eqd(a.imag(), b.imag());
    else if constexpr (requires { a.channels; }) {
        for (size_t i = 0; i < std::size(a.channels); ++i) if (!eq(a.channels[i], b.channels[i])) return false;
        return true;
    } else if constexpr (requires { a.p; }) {
        for (size_t i = 0; i < std::size(a.p); ++i) if (a.p[i] != b.p[i]) return false;
        return true;
    } else if constexpr (requires { a.rows(); a.cols(); a.at(0, 0); }) {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
        for (size_t i = 0; i < a.rows(); ++i) for (size_t j = 0; j < a.cols(); ++j) { auto p = a.at(i, j); auto q = b.at(i, j); if (!eq(p, q)) return false; }
        return true;
    } else return a == b;
}
template <class T> void dig(const T& a)
{
    if constexpr (is_img<T>::value) { for (auto s : a.getSize()) sim::digest_u64(s); auto v = a.getImageData(); dig(v); }
    else if constexpr (is_vec<T>::value) { sim::digest_u64(a.size()); for (size_t i = 0; i < a.size(); ++i) { typename T::value_type x = a[i]; dig(x); } }
    else if constexpr (is_tup<T>::value) std::apply([](const auto&... x) { (dig(x), ...); }, a);
    else if constexpr (std::is_same_v<T, long double>) sim::digest_u64(std::bit_cast<uint64_t>((double)a));
    else if constexpr (requires { a.channels; }) { for (auto& c : a.channels) dig(c); }
    else if constexpr (requires { a.p; }) { for (auto& c : a.p) dig(c); }
    else if constexpr (std::is_arithmetic_v<T>) sim::digest(&a, sizeof a);
    else if constexpr (std::is_same_v<T, std::string>) sim::digest(a.data(), a.size());
    else if constexpr (std::is_same_v<T, std::complex<double>>) { double r = a.real(), i = a.imag(); dig(r); dig(i); }
}
template <class T> std::string first_diff(const T& a, const T& b)
{
    std::ostringstream o;
    if constexpr (is_img<T>::value) {
        auto sz = [](const auto& i) { std::string s; for (auto d : i.getSize()) s += (s.empty() ? "" : "x") + std::to_string(d); return s; };
        if (a.getSize() != b.getSize()) { o << "size " << sz(a) << " expected " << sz(b); return o.str(); }
        auto x = a.getImageData(); auto y = b.getImageData();
        for (size_t i = 0; i < x.size(); ++i) { auto p = x[i]; auto q = y[i]; if (!eq(p, q)) { o << "pixel " << i << " of " << sz(a); break; } }
    } else if constexpr (is_vec<T>::value) {
        if (a.size() != b.size()) { o << "length " << a.size() << " expected " << b.size(); return o.str(); }
        for (size_t i = 0; i < a.size(); ++i) { typename T::value_type p = a[i], q = b[i]; if (!eq(p, q)) { o << "element " << i << " of " << a.size(); break; } }
    } else if constexpr (std::is_arithmetic_v<T>) o << +a << " expected " << +b;
    return o.str();
}
template <class T> void expect(const char* what, const T& got, const T& want)
{
    if (!eq(got, want)) sim::violation(std::string("wrong result: ") + what + " (" + first_diff(got, want) + ")");
}
// op() once on one thread outside the simulation (the reference), then under the seeded scheduler.
// model(), if given, is the independent definition of the result.
template <class Op> auto differential(const char* what, Op op)
{
    auto ref = op();
    sim::run([&] {
        auto got = op();
        expect(what, got, ref);
        dig(got);
    });
    return ref;
}
template <class Op, class M> void differential(const char* what, Op op, M model)
{
    auto want = model();
    sim::run([&] { auto got = op(); expect(what, got, want); dig(got); });
}
// f() in a process of its own that has called nothing of the library before; what a call gives "alone".
template <class F> uint64_t fresh(const char* what, F f)
{
    static uint64_t* out = (uint64_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    out[0] = out[1] = 0;
    pid_t p = fork();
    if (p == 0) { try { out[0] = f(); out[1] = 1; } catch (const std::exception& e) { fprintf(stderr, "%s: %s\n", what, e.what()); } _exit(0); }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!out[1]) sim::violation(std::string(what) + " does not return when called alone");
    return out[0];
}
// silence library chatter
struct Mute {
    struct Null : std::streambuf {   // no state: writing to it from several threads is no race, as it is none with the real streams
        int overflow(int c) override { return c == EOF ? 0 : c; }
        std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
    } a;
    std::streambuf *o, *e;
    Mute() : o(std::cout.rdbuf(&a)), e(std::cerr.rdbuf(&a)) {}
    ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
struct Capture {
    std::ostringstream a, b; std::streambuf *o, *e;
    Capture() : o(std::cout.rdbuf(a.rdbuf())), e(std::cerr.rdbuf(b.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
} // namespace h

namespace h {
// A parallel execution policy chosen by the seed.
template <class F> auto parallel(F&& f)
{
    static const bool unseq = false; (void)unseq;
    if (sim::decide(sim::K_MISC, 3)) return f(std::execution::par);
    return f(std::execution::par_unseq);
}
// f(policy): sequential policy on one thread is the reference, a parallel policy runs under the scheduler.
template <class F> auto policies(const char* what, F f)
{
    auto ref = f(std::execution::seq);
    sim::run([&] { auto got = parallel(f); expect(what, got, ref); dig(got); });
    return ref;
}
template <class F, class M> void policies(const char* what, F f, M model)
{
    auto want = model();
    auto ref = f(std::execution::seq);
    expect(what, ref, want);
    sim::run([&] { auto got = parallel(f); expect(what, got, want); dig(got); });
}
// results that contain a floating point reduction: equal up to rounding
inline bool close(double a, double b, double tol = 1e-9) { return eqd(a, b) || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
template <class T> bool near(const T& a, const T& b, double tol = 1e-9)
{
    if constexpr (is_img<T>::value) { if (a.getSize() != b.getSize()) return false; auto x = a.getImageData(); auto y = b.getImageData(); return near(x, y, tol); }
    else if constexpr (is_vec<T>::value) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) { typename T::value_type p = a[i], q = b[i]; if (!near(p, q, tol)) return false; } return true; }
    else if constexpr (is_tup<T>::value) return [&]<size_t... I>(std::index_sequence<I...>) { return (near(std::get<I>(a), std::get<I>(b), tol) && ...); }(std::make_index_sequence<std::tuple_size_v<T>>{});
    else if constexpr (requires { a.channels; }) { for (size_t i = 0; i < std::size(a.channels); ++i) if (!near(a.channels[i], b.channels[i], tol)) return false; return true; }
    else if constexpr (std::is_integral_v<T>) return a > b ? a - b <= 1 : b - a <= 1;   // a rounded value may truncate to the neighbour
    else return close((double)a, (double)b, tol);
}
template <class F> auto policies_near(const char* what, F f, double tol = 1e-9)
{
    auto ref = f(std::execution::seq);
    sim::run([&] { auto got = parallel(f); if (!near(got, ref, tol)) sim::violation(std::string("wrong result: ") + what + " (" + first_diff(got, ref) + ")"); });
    return ref;
}
inline BoundaryCondition boundary() { static const BoundaryCondition b[] = {BoundaryCondition::constant, BoundaryCondition::mirror, BoundaryCondition::replicate}; return b[sim::in().below(3)]; }
} // namespace h
