// Operations run by several clients at once on shared inputs (C16), as type-erased calls that return a hash of their result.
#pragma once
#include "common.h"
#include "histogram.h"
namespace ops {
using namespace h;
struct Hash {
    uint64_t v = 1469598103934665603ull;
    void bytes(const void* p, size_t n) { auto c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) v = (v ^ c[i]) * 1099511628211ull; }
    void u(uint64_t x) { v = (v ^ x) * 0x9E3779B97F4A7C15ull; v ^= v >> 29; }
    template <class T> void add(const T& a)
    {
        if constexpr (is_img<T>::value) { for (auto s : a.getSize()) u(s); auto d = a.getImageData(); add(d); }
        else if constexpr (is_vec<T>::value) { u(a.size()); for (size_t i = 0; i < a.size(); ++i) { typename T::value_type x = a[i]; add(x); } }
        else if constexpr (is_tup<T>::value) std::apply([this](const auto&... x) { (add(x), ...); }, a);
        else if constexpr (requires { a.channels; }) { for (auto& c : a.channels) add(c); }
        else if constexpr (requires { a.p; }) { for (auto& c : a.p) add(c); }
        else if constexpr (std::is_same_v<T, bool>) u(a);
        else if constexpr (std::is_floating_point_v<T>) { double d = (double)a; u(d != d ? 1 : std::bit_cast<uint64_t>(d)); }
        else if constexpr (std::is_integral_v<T>) u((uint64_t)a);
        else if constexpr (std::is_same_v<T, std::string>) bytes(a.data(), a.size());
        else if constexpr (requires { a.real(); }) { add(a.real()); add(a.imag()); }
        else if constexpr (requires { a.rows(); a.cols(); }) { u(a.rows()); u(a.cols()); for (size_t i = 0; i < a.rows(); ++i) for (size_t j = 0; j < a.cols(); ++j) add(a.at(i, j)); }
        else if constexpr (requires { a.begin()->first; }) { for (auto& [k, x] : a) { add(k); add(x); } }
        else static_assert(sizeof(T) == 0, "no hash");
    }
};
template <class T> uint64_t hash(const T& a) { Hash x; x.add(a); return x.v; }
struct In {
    size_t w, hh; double sigma, t, angle; size_t n; bool flag;   // parameters differ between input sets of the same size
    Image<double> d, e, k; Image<unsigned char> g; Image<RGB> c; Image<HSV> v; Image<RGB_DOUBLE> cd; Image<MultiChannel<double, 4>> m;
    In(size_t W, size_t H) : w(W), hh(H), sigma(0.5 + 0.25 * (double)sim::in().below(4)), t(1 + 0.25 * (double)sim::in().below(12)), angle(0.1 * (double)sim::in().below(63)), n(1 + sim::in().below(3)), flag(sim::in().chance(1, 2)), d(image<double>(W, H)), e(image<double>(W, H)), k(image<double>(1 + sim::in().below(3), 1 + sim::in().below(3))), g(image<unsigned char>(W, H)), c(image<RGB>(W, H)), v(0, 0), cd(0, 0), m(image<MultiChannel<double, 4>>(W, H))
    { v = rgb2hsv(c); cd = convert_image<RGB_DOUBLE>(c); }
    uint64_t sum() const { Hash x; x.add(d); x.add(e); x.add(k); x.add(g); x.add(c); x.add(v); x.add(cd); x.add(m); return x.v; }
};
struct Op { const char* name; uint64_t (*f)(const In&); };
#define OP(n, ...) {n, [](const In& i) -> uint64_t { return hash(__VA_ARGS__); }}
std::vector<Op>& registry();
struct Add { Add(std::vector<Op> l) { for (auto& o : l) registry().push_back(o); } };
} // namespace ops
