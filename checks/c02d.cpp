// C02 (channel-wise mathematical functions and value setting): every execution policy gives the sequential result.
#include "common.h"
using namespace h;
namespace {
template <class C> C channels() { auto& g = sim::in(); C c; for (auto& x : c.channels) x = g.chance(1, 20) ? 0.0 : (double)g.range(-400, 400) / (g.chance(1, 2) ? 8 : 512); return c; }
// the channels one by one define the result
template <class C, class P, class S> void math(const char* name, const C& c, P with_policy, S scalar)
{
    auto plain = with_policy(std::execution::seq); auto keep = c;
    for (size_t i = 0; i < std::size(c.channels); ++i) { double want = (double)scalar(c.channels[i]), got = (double)plain.channels[i]; if (!eqd(want, got)) sim::violation(std::string("wrong result: channel-wise ") + name + " (channel " + std::to_string(i) + ")"); }
    policies((std::string("channel-wise ") + name).c_str(), with_policy);
    expect("operand of a channel-wise function", c, keep);
}
#define EACH(X) X(sqrt) X(cbrt) X(sin) X(cos) X(tan) X(cot) X(sec) X(csc) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(erf) X(erfc) X(lgamma) X(tgamma) X(ceil) X(floor) X(trunc) X(nearbyint) X(rint) X(ilogb) X(logb) X(exp) X(exp2) X(expm1) X(log) X(log10) X(log1p) X(log2)
#define CLASSES(X) X(fpclassify) X(isfinite) X(isinf) X(isnan) X(isnormal) X(signbit)
template <class C> void any_math()
{
    C c = channels<C>(); size_t n = 0, k = 0;
#define COUNT(f) ++n;
    EACH(COUNT)
    size_t pick = sim::in().below(n);
#define CASE(f) if (k++ == pick) math(#f, c, [&](auto&& p) { return TinyDIP::f(p, c); }, [](double x) { return TinyDIP::f(x); });
    EACH(CASE)
}
} // namespace
SCENARIO_W(math_five_channels, 2) { any_math<MultiChannel<double, 5>>(); }
SCENARIO(math_abs) { auto c = channels<MultiChannel<double, 6>>(); math("abs", c, [&](auto&& p) { return TinyDIP::abs(p, c); }, [](double x) { return std::abs(x); }); }
SCENARIO(math_rgb) { any_math<RGB_DOUBLE>(); }
SCENARIO(math_hsv) { any_math<HSV>(); }
SCENARIO(math_classes)
{
    auto c = channels<MultiChannel<double, 4>>(); size_t n = 0, k = 0; if (sim::in().chance(1, 2)) { static const double s[] = {NAN, INFINITY, -INFINITY, -0.0, 5e-324}; c.channels[sim::in().below(4)] = sim::in().pick(s); }
    CLASSES(COUNT)
    size_t pick = sim::in().below(n);
    CLASSES(CASE)
}
SCENARIO(set_all)
{
    auto im = image<double>(); double v = val<double>();
    policies("setting every pixel", [&](auto&& p) { auto o = im; o.setAllValue(p, v); return o; }, [&] { return Image<double>(std::vector<double>(im.count(), v), im.getSize()); });
}
SCENARIO(normalised_array)
{
    auto& g = sim::in(); std::array<int, 40> a; for (auto& x : a) x = (int)g.below(100); double s = 1 + (double)g.below(50);
    policies("normalised array", [&](auto&& p) { return get_normalized_input(p, a, s); }, [&] { std::array<double, 40> o; for (size_t i = 0; i < 40; ++i) o[i] = a[i] / s; return o; });
}
namespace {
std::vector<std::vector<int>> rows() { auto& g = sim::in(); std::vector<std::vector<int>> v(g.below(7)); for (auto& r : v) { r.resize(g.below(30)); for (auto& x : r) x = (int)g.range(-3, 3); } return v; }
} // namespace
SCENARIO(remove_nested)
{
    auto v = rows(); auto keep = v; int k = (int)sim::in().range(-3, 3);
    policies("removal in a nested range", [&](auto&& p) { return recursive_remove_copy<2>(p, v, k); }, [&] { auto o = v; for (auto& r : o) std::erase(r, k); return o; });
    policies("conditional removal in a nested range", [&](auto&& p) { return recursive_remove_copy_if<2>(p, v, [k](int x) { return x > k; }); }, [&] { auto o = v; for (auto& r : o) std::erase_if(r, [k](int x) { return x > k; }); return o; });
    expect("operand of a removal", v, keep);
}
SCENARIO(count_nested)
{
    auto v = rows(); int k = (int)sim::in().range(-3, 3);
    policies("count in a nested range", [&](auto&& p) { return (size_t)recursive_count<std::remove_cvref_t<decltype(p)>, 2>(p, v, k); }, [&] { size_t n = 0; for (auto& r : v) n += (size_t)std::count(r.begin(), r.end(), k); return n; });
}
SCENARIO(apply_channels)
{
    auto c = channels<MultiChannel<double, 7>>(); double k = val<double>();
    policies("function of every channel", [&](auto&& p) { return apply_multichannel<7>(p, c, [](double x, double y) { return x * 2 + y; }, k); }, [&] { auto o = c; for (auto& x : o.channels) x = x * 2 + k; return o; });
    auto r = channels<RGB_DOUBLE>(); policies("function of every colour", [&](auto&& p) { return apply_multichannel<3>(p, r, [](double x) { return x - 3; }); }, [&] { MultiChannel<double, 3> o; for (int i = 0; i < 3; ++i) o.channels[i] = r.channels[i] - 3; return o; });
}
SCENARIO(transform_array)
{
    auto& g = sim::in(); std::array<int, 33> a; for (auto& x : a) x = (int)g.range(-99, 99);
    policies("transform of an array", [&](auto&& p) { return recursive_transform<1>(p, [](int x) { return x * 3; }, a); }, [&] { auto o = a; for (auto& x : o) x *= 3; return o; });
}
SCENARIO(pixel_count)
{
    auto im = image<double>(); policies("number of pixels", [&](auto&& p) { return im.count(p); }, [&] { return im.getImageData().size(); });
}
