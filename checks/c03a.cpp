// C03 (images): parallel reductions combine every element exactly once.
#include "common.h"
using namespace h;

template <class T> static std::vector<T> data(const Image<T>& im) { auto d = im.getImageData(); return std::vector<T>(d.begin(), d.end()); }
template <class T> static void sums(const char* w)
{
    auto im = image<T>(); auto keep = im; auto d = data(im);
    policies(w, [&](auto&& p) { return (T)sum(p, im); }, [&] { T s{}; for (auto v : d) s = (T)(s + v); return s; });
    expect("operand of a sum", im, keep);
}
SCENARIO(sum_int) { sums<int>("sum"); }
SCENARIO(sum_double) { sums<double>("sum"); }        // pixel values are small integers: every partial sum is exact
SCENARIO(sum_size) { sums<std::size_t>("sum"); }
SCENARIO(mean_image)
{
    auto im = image<double>(); auto d = data(im);
    policies("mean", [&](auto&& p) { return (double)mean(p, im); }, [&] { double s = 0; for (auto v : d) s += v; return s / (double)d.size(); });
}
SCENARIO(count_value)
{
    auto& g = sim::in(); size_t w = dim(), hh = dim(); std::vector<unsigned char> d(w * hh); for (auto& v : d) v = (unsigned char)g.below(3); Image<unsigned char> im(d, w, hh); unsigned char t = (unsigned char)g.below(4);
    policies("count of a value", [&](auto&& p) { return (long)count(p, im, t); }, [&] { long n = 0; for (auto v : d) n += v == t; return n; });
}
SCENARIO(histogram_total)
{
    auto im = image<unsigned char>(); Histogram<unsigned char> hs(im);
    policies("total of a histogram", [&](auto&& p) { return (size_t)hs.getCountSum(p); }, [&] { return (size_t)im.count(); });
}
SCENARIO(histogram_probabilities)
{
    auto im = image<unsigned char>(); Histogram<unsigned char> hs(im); auto d = data(im);
    policies("probabilities of a histogram", [&](auto&& p) { return hs.to_probabilities_vector(p); }, [&] { std::vector<size_t> c(256); for (auto v : d) ++c[v]; std::vector<double> o(256); for (int i = 0; i < 256; ++i) o[i] = (double)c[i] / (double)d.size(); return o; });
}
SCENARIO(otsu)
{
    auto& g = sim::in(); size_t w = dim(), hh = dim(); std::vector<unsigned char> d(w * hh); for (auto& v : d) v = (unsigned char)(g.chance(1, 2) ? 40 + g.below(30) : 180 + g.below(30)); Image<unsigned char> im(d, w, hh);
    policies("Otsu threshold", [&](auto&& p) { return (size_t)otsu_threshold(p, im); });
}
template <class T> static void dist(const char* w)
{
    size_t W = dim(), H = dim(); auto a = image<T>(W, H), b = image<T>(W, H); auto x = data(a), y = data(b); auto ka = a, kb = b;
    policies(w, [&](auto&& p) { return (double)euclidean_distance(p, a, b); }, [&] { double s = 0; for (size_t i = 0; i < x.size(); ++i) s += ((double)x[i] - (double)y[i]) * ((double)x[i] - (double)y[i]); return std::sqrt(s); });
    expect("first operand of a distance", a, ka); expect("second operand of a distance", b, kb);
}
SCENARIO(distance_int) { dist<int>("Euclidean distance of images"); }
SCENARIO(distance_double) { dist<double>("Euclidean distance of images"); }
SCENARIO(distance_rgb)
{
    size_t W = dim(8), H = dim(8); auto a = image<RGB_DOUBLE>(W, H), b = image<RGB_DOUBLE>(W, H); auto x = data(a), y = data(b);
    double want[3] = {0, 0, 0}; for (size_t i = 0; i < x.size(); ++i) for (int c = 0; c < 3; ++c) want[c] += (x[i].channels[c] - y[i].channels[c]) * (x[i].channels[c] - y[i].channels[c]);
    auto f = [&](auto&& p) { auto r = euclidean_distance(p, a, b); return std::vector<double>{(double)r.channels[0], (double)r.channels[1], (double)r.channels[2]}; };
    policies("Euclidean distance per channel", f, [&] { return std::vector<double>{std::sqrt(want[0]), std::sqrt(want[1]), std::sqrt(want[2])}; });
}
SCENARIO(gaussian_estimate)
{
    auto& g = sim::in(); size_t w = 5 + g.below(5), hh = 5 + g.below(5);
    auto im = gaussianFigure2D(std::execution::seq, w, hh, w / 2, hh / 2, 1.0 + g.below(3), 1.0 + g.below(3), 0.1 * g.below(5), 100.0);
    size_t it = g.below(3);
    auto f = [&](auto&& p) { auto r = estimate_gaussian_parameters_2d(p, im, it); return std::vector<double>{r.amplitude, r.x0, r.y0, r.sigma_x, r.sigma_y, r.rho}; };
    policies_near("estimated Gaussian parameters", f, 1e-5);
}
SCENARIO(sparse_histogram)
{
    auto& g = sim::in(); std::vector<int> d(1 + g.below(40)); for (auto& v : d) v = (int)g.range(-6, 6); Image<int> im(d, d.size(), size_t(1)); Histogram<int> hs(im); std::map<int, double> c; for (int v : d) c[v] += 1.0;
    policies("total of a sparse histogram", [&](auto&& p) { return (size_t)hs.getCountSum(p); }, [&] { return d.size(); });
    auto read = [&](const auto& n) { std::vector<double> o; for (auto& [k, x] : c) o.push_back((double)n.getCount(k)); return o; };
    policies("normalised sparse histogram", [&](auto&& p) { auto q = hs; return read(q.normalize(p)); }, [&] { std::vector<double> o; for (auto& [k, x] : c) o.push_back(x / (double)d.size()); return o; });
}
SCENARIO(dense_histogram)
{
    auto im = image<unsigned char>(dim(8), dim(8)); Histogram<unsigned char> hs(im); auto d = data(im);
    policies("normalised histogram", [&](auto&& p) { auto q = hs; auto n = q.normalize(p); std::vector<double> o; for (int i = 0; i < 256; ++i) o.push_back((double)n.getCount((unsigned char)i)); return o; }, [&] { std::vector<double> o(256); for (auto v : d) o[v] += 1; for (auto& x : o) x /= (double)d.size(); return o; });
}
