// C02: operations on multi-channel images, which run one task per channel and a policy inside each of them
#include "common.h"
using namespace h;
namespace {
template <class P, class F> auto pixels(const Image<P>& im, F f) { std::vector<P> o; for (auto& px : im.getImageData()) { P q{}; for (int k = 0; k < 3; ++k) q.channels[k] = (std::remove_cvref_t<decltype(q.channels[0])>)f(px.channels[k]); o.push_back(q); } return Image<P>(o, im.getSize()); }
}
SCENARIO(abs_rgb_double) { auto im = image<RGB_DOUBLE>(); policies("absolute value of channels", [&](auto&& p) { return TinyDIP::abs(p, im); }, [&] { return pixels(im, [](double x) { return std::abs(x); }); }); }
SCENARIO(abs_hsv) { auto im = image<HSV>(); policies("absolute value of channels", [&](auto&& p) { return TinyDIP::abs(p, im); }, [&] { return pixels(im, [](double x) { return std::abs(x); }); }); }
SCENARIO(pow_rgb_double) { auto im = image<RGB_DOUBLE>(); double e = 1 + (double)sim::in().below(3); policies("power of channels", [&](auto&& p) { return TinyDIP::pow(p, im, e); }, [&] { return pixels(im, [&](double x) { return std::pow(x, e); }); }); }
SCENARIO(complex_channels) { MultiChannel<double, 5> c; for (auto& x : c.channels) x = val<double>(); policies("channels to complex", [&](auto&& p) { auto r = to_complex(p, c); std::vector<double> o; for (auto& z : r.channels) { o.push_back(z.real()); o.push_back(z.imag()); } return o; }, [&] { std::vector<double> o; for (double x : c.channels) { o.push_back(x); o.push_back(0); } return o; }); }
SCENARIO(histogram_of_map)
{
    auto& g = sim::in(); std::map<int, size_t> m; for (size_t i = 0, n = 1 + g.below(12); i < n; ++i) m[(int)g.range(-9, 9)] = 1 + g.below(50);
    policies("normalised histogram of a map", [&](auto&& p) { return normalize_histogram(p, m); }, [&] { double s = 0; for (auto& [k, v] : m) s += (double)v; std::map<int, double> o; for (auto& [k, v] : m) o[k] = (double)v / s; return o; });
}
