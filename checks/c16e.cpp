// C16: the overloads with an execution policy
#include "c16_ops.h"
namespace ops {
using V = std::vector<double>;
template <class F> static auto pol(const In& i, F f) { switch ((i.n + i.flag) % 4) { case 0: return f(std::execution::seq); case 1: return f(std::execution::par); case 2: return f(std::execution::par_unseq); default: return f(std::execution::unseq); } }
#define POP(name, ...) OP(name, pol(i, [&](auto&& p) { return __VA_ARGS__; }))
static std::vector<std::vector<double>> rows(const In& i) { std::vector<std::vector<double>> v; for (size_t y = 0; y < i.hh; ++y) { v.emplace_back(); for (size_t x = 0; x < i.w; ++x) v.back().push_back(i.d.at_without_boundary_check(x, y)); } return v; }
static V flat(const std::vector<std::vector<double>>& g) { V o; for (auto& r : g) { o.push_back((double)r.size()); o.insert(o.end(), r.begin(), r.end()); } return o; }
static Add add_ops(std::vector<Op>{
    POP("p_lanczos", lanczos_resample(p, i.d, i.w + i.n, i.hh + 1, 2 + (int)i.flag)), POP("p_lanczos_rgb", lanczos_resample(p, i.c, i.w + 1, i.hh + i.n)), POP("p_abs", TinyDIP::abs(p, i.d)), POP("p_abs_rgbd", TinyDIP::abs(p, i.cd)), POP("p_pow", TinyDIP::pow(p, i.d, i.t)), POP("p_pow_rgbd", TinyDIP::pow(p, i.cd, i.t)),
    POP("p_negate", negate(p, i.d)), POP("p_to_double", to_double(p, i.g)), POP("p_to_complex", to_complex(p, i.d)), POP("p_count", (double)TinyDIP::count(p, i.g, (unsigned char)i.n)), POP("p_replace", TinyDIP::replace(p, i.g, i.g.getImageData()[i.n], (unsigned char)7)), POP("p_mean", TinyDIP::mean(p, i.d)),
    POP("p_transform", pixelwise_transform(p, [t = i.t](double x) { return x * t + 1; }, i.d)), POP("p_rgb2hsv", rgb2hsv(p, i.c)), POP("p_hsv2rgb", hsv2rgb(p, i.v)), POP("p_transpose", transpose(p, i.d)), POP("p_conv2", conv2(p, i.d, i.k, i.flag)), POP("p_subimage", subimage(p, i.d, 3, 2, i.n, 1)),
    POP("p_otsu", (double)otsu_threshold(p, i.g)), POP("p_fisheye", gaussian_fisheye(p, i.d, 0.2 * i.sigma)), POP("p_warp", [&] { linalg::Matrix<double> m(3, 3); m.at(0, 0) = 1 + 0.05 * i.t; m.at(1, 1) = 1.1; m.at(2, 2) = 1; m.at(0, 2) = (double)i.n; m.at(0, 1) = 0.1 * i.sigma; return warp_perspective<RGB>{}(p, i.c, m, i.w + 1, i.hh); }()),
    POP("p_normalize_histogram", [&] { std::array<size_t, 5> a{i.n, 2, 3, (size_t)i.flag, i.w}; auto r = normalize_histogram(p, a); return V(r.begin(), r.end()); }()), POP("p_each_pixel", apply_each_pixel(p, i.d, [](double x, double y) { return x * y; }, i.t)), POP("p_dct3_plane", dct3_one_plane(p, std::vector<Image<double>>{i.d, i.e}, i.n % 2)),
    POP("p_constant_padding", generate_constant_padding_image(p, i.d, i.n, 1, i.t)), POP("p_recursive_transform", flat(recursive_transform<2>(p, [t = i.t](double x) { return x - t; }, rows(i)))), POP("p_remove", flat(recursive_remove_copy_if<2>(p, rows(i), [t = i.t](double x) { return x > 40 * t; }))),
    POP("p_variance", population_variance(p, V{1, 2, (double)i.n, 4})), POP("p_figure", gaussianFigure2D(p, i.w, i.hh, i.n, i.hh / 2, i.t, 1.0, 0.1 * (double)i.n, 1.0)), POP("p_paste", paste2D(p, i.d, i.k, i.n, 1, 0.0)),
    POP("p_windowed", windowed_filter(p, i.d, std::vector<size_t>{1, i.n}, [t = i.t](const Image<double>& x) { return t * x.at_without_boundary_check(size_t(0), size_t(0)); }, BoundaryCondition::replicate, 0.0)),
});
} // namespace ops
