// C02 (per-pixel functions): every execution policy gives the sequential result.
#include "common.h"
using namespace h;

SCENARIO(each_pixel)
{
    auto im = image<int>(); int k = (int)sim::in().range(-5, 5);
    policies("per-pixel function", [&](auto&& p) { return apply_each_pixel(p, im, [](int v, int m) { return v * m + 3; }, k); }, [&] { auto d = im.getImageData(); std::vector<int> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i] * k + 3); return Image<int>(v, im.getSize()); });
}
SCENARIO(pixelwise_unary)
{
    auto im = image<int>(); auto keep = im;
    policies("pixel-wise transform", [&](auto&& p) { return pixelwise_transform(p, [](int v) { return v * 2 - 1; }, im); }, [&] { auto d = im.getImageData(); std::vector<int> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i] * 2 - 1); return Image<int>(v, im.getSize()); });
    expect("operand of pixel-wise transform", im, keep);
}
SCENARIO(negate_image)
{
    auto im = image<int>();
    policies("negation", [&](auto&& p) { return TinyDIP::negate(p, im); }, [&] { auto d = im.getImageData(); std::vector<int> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(-d[i]); return Image<int>(v, im.getSize()); });
}
SCENARIO(rgb_to_hsv)
{
    auto im = image<RGB>();
    policies("RGB to HSV", [&](auto&& p) { return rgb2hsv(p, im); });
}
SCENARIO(hsv_to_rgb)
{
    auto im = image<RGB>(); auto hs = rgb2hsv(im);
    policies("HSV to RGB", [&](auto&& p) { return hsv2rgb(p, hs); });
}
SCENARIO(abs_image)
{
    auto im = image<int>();
    policies("absolute value", [&](auto&& p) { return TinyDIP::abs(p, im); }, [&] { auto d = im.getImageData(); std::vector<int> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(std::abs(d[i])); return Image<int>(v, im.getSize()); });
}
SCENARIO(pow_image)
{
    auto im = image<double>(); double e = 1 + sim::in().below(3);
    policies("power", [&](auto&& p) { return TinyDIP::pow(p, im, e); });
}
SCENARIO(to_double_image)
{
    auto im = image<int>();
    policies("conversion to double", [&](auto&& p) { return to_double(p, im); }, [&] { auto d = im.getImageData(); std::vector<double> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i]); return Image<double>(v, im.getSize()); });
}
SCENARIO(to_complex_image)
{
    auto im = image<double>();
    policies("conversion to complex", [&](auto&& p) { return to_complex(p, im); }, [&] { auto d = im.getImageData(); std::vector<std::complex<double>> v; for (size_t i = 0; i < d.size(); ++i) v.push_back({d[i], 0}); return Image<std::complex<double>>(v, im.getSize()); });
}
SCENARIO(replace_values)
{
    auto& g = sim::in(); size_t w = dim(), hh = dim(); std::vector<int> v(w * hh); for (auto& x : v) x = (int)g.below(4); Image<int> im(v, w, hh); auto keep = im;
    int t = (int)g.below(4), n = (int)g.below(9);
    policies("value replacement", [&](auto&& p) { return TinyDIP::replace(p, im, t, n); }, [&] { auto q = v; for (auto& x : q) if (x == t) x = n; return Image<int>(q, w, hh); });
    expect("operand of value replacement", im, keep);
}
SCENARIO(recursive_transform_nested)
{
    auto& g = sim::in(); std::vector<std::vector<int>> v(1 + g.below(6)); for (auto& r : v) { r.resize(g.below(9)); for (auto& x : r) x = (int)g.range(-99, 99); }
    policies("transform of a nested container", [&](auto&& p) { return recursive_transform<2>(p, [](int x) { return x * 3; }, v); }, [&] { auto q = v; for (auto& r : q) for (auto& x : r) x *= 3; return q; });
}
SCENARIO(recursive_transform_flat)
{
    auto& g = sim::in(); std::vector<int> v(g.below(40)); for (auto& x : v) x = (int)g.range(-99, 99);
    policies("transform of a container", [&](auto&& p) { return recursive_transform<1>(p, [](int x) { return x + 7; }, v); }, [&] { auto q = v; for (auto& x : q) x += 7; return q; });
}
SCENARIO(multichannel_math)
{
    auto& g = sim::in(); MultiChannel<double, 5> c; for (auto& x : c.channels) x = (double)g.range(1, 400) / 8;
    switch (g.below(6)) {
    case 0: policies("channel-wise square root", [&](auto&& p) { return TinyDIP::sqrt(p, c); }, [&] { auto q = c; for (auto& x : q.channels) x = std::sqrt(x); return q; }); break;
    case 1: policies("channel-wise cube root", [&](auto&& p) { return TinyDIP::cbrt(p, c); }, [&] { auto q = c; for (auto& x : q.channels) x = std::cbrt(x); return q; }); break;
    case 2: policies("channel-wise sine", [&](auto&& p) { return TinyDIP::sin(p, c); }, [&] { auto q = c; for (auto& x : q.channels) x = std::sin(x); return q; }); break;
    case 3: policies("channel-wise cosine", [&](auto&& p) { return TinyDIP::cos(p, c); }, [&] { auto q = c; for (auto& x : q.channels) x = std::cos(x); return q; }); break;
    case 4: policies("channel-wise power", [&](auto&& p) { return TinyDIP::pow(p, c, 2.0); }, [&] { auto q = c; for (auto& x : q.channels) x = std::pow(x, 2.0); return q; }); break;
    default: policies("channel-wise absolute value", [&](auto&& p) { return TinyDIP::abs(p, c); }, [&] { auto q = c; for (auto& x : q.channels) x = std::fabs(x); return q; });
    }
}
SCENARIO(range_difference)
{
    auto& g = sim::in(); size_t n = g.below(40); std::vector<int> a(n), b(n); for (auto& x : a) x = (int)g.range(-99, 99); for (auto& x : b) x = (int)g.range(-99, 99);
    policies("element-wise difference", [&](auto&& p) { return difference(p, a, b); }, [&] { std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(std::abs(a[i] - b[i])); return v; });
}
SCENARIO(histogram_normalisation)
{
    auto& g = sim::in(); std::array<int, 24> a; for (auto& x : a) x = (int)g.below(100); a[3] = 1;
    policies("histogram normalisation", [&](auto&& p) { return normalize_histogram(p, a); }, [&] { double s = 0; for (auto x : a) s += x; std::array<double, 24> o; for (size_t i = 0; i < 24; ++i) o[i] = a[i] / s; return o; });
}
