#include "c16_ops.h"
namespace ops {
static Point<2> pt(size_t x, size_t y) { Point<2> p; p.p[0] = x; p.p[1] = y; return p; }
using V = std::vector<double>;
template <class Im> static V questions(const Im& a)
{
    return V{(double)all_positive(a), (double)all_non_negative(a), (double)all_zero(a), (double)all_negative(a), (double)all_non_positive(a), (double)any_positive(a), (double)any_non_negative(a), (double)any_zero(a), (double)any_negative(a), (double)any_non_positive(a),
             (double)none_positive(a), (double)none_non_negative(a), (double)none_zero(a), (double)none_negative(a), (double)none_non_positive(a)};
}
static V sizes(const In& i) { auto o = generate_constant_padding_image(i.d, i.n, 1, 0.0); return V{(double)is_width_same(i.d, i.e), (double)is_height_same(i.d, o), (double)is_width_same(i.d, o), (double)is_size_same(i.d, o), (double)is_size_same(i.d, i.e)}; }
static linalg::Matrix<double> hom(const In& i)
{
    linalg::Matrix<double> m(3, 3); m.at(0, 0) = 1 + 0.05 * i.t; m.at(0, 1) = 0.1 * i.sigma; m.at(0, 2) = (double)i.n; m.at(1, 0) = -0.1 * i.sigma; m.at(1, 1) = 1.1; m.at(1, 2) = 1; m.at(2, 0) = 0.001 * i.t; m.at(2, 1) = 0; m.at(2, 2) = 1;
    return m;
}
struct Kp { std::vector<Point<2>> p, q; std::vector<std::pair<size_t, size_t>> m; };
static Kp corr(const In& i) { Kp k; for (size_t j = 0; j < 9; ++j) { k.p.push_back(pt(j * 5 % 11, j * j % 13)); k.q.push_back(pt(j * 5 % 11 + i.n, j * j % 13 + (j == 4 ? 3 : 1))); k.m.push_back({j, j}); } return k; }
static std::vector<std::vector<double>> grid(const In& i) { std::vector<std::vector<double>> v; for (size_t y = 0; y < i.hh; ++y) { v.emplace_back(); for (size_t x = 0; x < i.w; ++x) v.back().push_back(i.d.at_without_boundary_check(x, y)); } return v; }
static V flat(const std::vector<std::vector<double>>& g) { V o; for (auto& r : g) { o.push_back((double)r.size()); o.insert(o.end(), r.begin(), r.end()); } return o; }
static double quarter(const In& i) { return 0.25 * (double)i.n; }
static Image<double> unit(const In& i) { return pixelwise_transform([](double x) { return x / 4096.0; }, i.d); }
static Add add_ops(std::vector<Op>{
    OP("questions_double", questions(i.d)), OP("questions_int", questions(i.g.cast<int>())), OP("size_questions", sizes(i)), OP("all_of", (int)all_of(i.d, [t = i.t](double x) { return x > 40 * t; })), OP("any_of", (int)any_of(i.d, [t = i.t](double x) { return x > 60 * t; })),
    OP("none_of", (int)none_of(i.d, [t = i.t](double x) { return x > 60 * t; })),
    OP("zeros", zeros<double>(i.w, i.hh)), OP("ones", ones<double>(i.w, i.n)), OP("determinant3x3", determinant3x3(subimage(i.d, 3, 3, 1 + i.n % 2, 2))),
    OP("normalDistribution1D", normalDistribution1D(i.t, i.sigma)), OP("normalDistribution2D", normalDistribution2D(i.t, quarter(i), i.sigma)), OP("cubic_interpolate", cubic_interpolate(i.t, i.sigma, quarter(i), i.angle, 0.25)),
    OP("bicubicPolate", [&] { double n[16]; for (size_t k = 0; k < 16; ++k) n[k] = i.d.getImageData()[k]; return bicubicPolate(n, 0.25 * (double)(i.n % 4), i.flag ? 0.5 : 0.125); }()), OP("lanczos_kernel", lanczos_kernel(0.3 * i.t, 1 + (int)i.n)), OP("cubic_kernel", V{cubic_kernel(i.sigma), cubic_kernel(i.t, -0.5 - quarter(i))}),
    OP("solve_linear_system", [&] { std::array<std::array<double, 3>, 3> A{{{i.t, 1, 0.5}, {0.25, i.sigma + 3, (double)i.n}, {1, 2, 9}}}; auto r = solve_linear_system<3, double>(A, std::array<double, 3>{1.0, i.angle, 2.0}); return V(r.begin(), r.end()); }()),
    OP("computeFilterSizeFromSigma", (double)computeFilterSizeFromSigma(i.sigma)),
    OP("spatial_kernel", bilateral_filter_spatial_kernel(std::vector<std::size_t>{2 * i.n + 1, 3}, [s = i.sigma](double d) { return std::exp(-d / s); }, [](const auto& a, const auto& b) { double r = 0; for (size_t k = 0; k < a.size(); ++k) r += std::abs((double)a[k] - (double)b[k]); return r; })),
    OP("get_normalized_input", [&] { std::array<int, 4> a{(int)i.n, 2, 3, i.flag}; auto r = get_normalized_input(a, i.t); return V(r.begin(), r.end()); }()), OP("normalize_histogram", [&] { std::array<size_t, 4> a{i.n, 2, 3, (size_t)i.flag}; auto r = normalize_histogram(a); return V(r.begin(), r.end()); }()),
    OP("apply_each_single_output", [&] { V o; for (double x : apply_each_single_output(3, i.c, [](auto&& p) { return (double)sum(p); })) o.push_back(x); return o; }()),
    OP("tan", tan(unit(i))), OP("cot", cot(unit(i))), OP("sec", sec(unit(i))), OP("csc", csc(unit(i))), OP("asin", asin(unit(i))), OP("acos", acos(unit(i))),
    OP("constructRGBDOUBLE", constructRGBDOUBLE(i.d, i.e, i.d)), OP("negate", negate(i.d)),
    OP("refinement", SIFT_impl::keypoint_refinement(subimage(i.d, 3, 3, 2, 1 + i.n % 2), std::make_tuple(i.w, i.n))), OP("filtering", (int)SIFT_impl::keypoint_filtering(subimage(i.d, 3, 3, 2, 1 + i.n % 2), 8 * i.t, 12.1)),
    OP("is_it_extremum", (int)SIFT_impl::is_it_extremum(subimage(i.d, 3, 3, 2, 2), subimage(i.e, 3, 3, 2, 2), subimage(i.d, 3, 3, 1, 1), i.t)),
    OP("compute_homography", [&] { auto k = corr(i); std::vector<std::pair<Point<2>, Point<2>>> v; for (size_t j = 0; j < 4 + i.n; ++j) v.push_back({k.p[j], k.q[j]}); linalg::Matrix<double> H(3, 3); bool ok = compute_homography<double>(v, H); return std::make_pair((int)ok, H); }()),
    OP("refine_homography", [&] { auto k = corr(i); linalg::Matrix<double> H(3, 3); H.at(0, 0) = H.at(1, 1) = H.at(2, 2) = 1; H.at(0, 2) = (double)i.n; H.at(1, 2) = 1; return refine_homography<double>(k.p, k.q, k.m, H, 0.5 + i.sigma); }()),
    OP("scale_homography", scale_homography<double>(hom(i), i.w, i.hh, i.w - 1, i.hh - 2, 2 * i.w, i.hh, i.w, i.n)),
    OP("draw_matches_size", [&] { auto k = corr(i); for (auto* v : {&k.p, &k.q}) for (auto& p : *v) { p.p[0] %= i.w; p.p[1] %= i.hh; } auto r = draw_matches(i.c, i.c, k.p, k.q, {{0, 1}, {i.n, 2}}); return std::vector<size_t>{r.getWidth(), r.getHeight()}; }()),
    OP("stitch_sequential_single", stitch_sequential(std::vector<Image<RGB>>{i.c})),
    OP("recursive_max", recursive_max(grid(i))), OP("recursive_min", recursive_min(grid(i))), OP("recursive_minmax", [&] { auto g = grid(i); auto r = recursive_minmax<1>(g[i.n % g.size()]); return V{r.min, r.max}; }()), OP("hypot", hypot(i.t, i.sigma, quarter(i))),
    OP("arithmetic_mean", [&] { V v = i.d.getImageData(); return (double)arithmetic_mean(v); }()), OP("recursive_flatten", [&] { auto g = grid(i); V o; recursive_flatten<2>(g, o); return o; }()), OP("recursive_copy_if", flat(recursive_copy_if<2>(grid(i), [t = i.t](double x) { return x > 30 * t; }))),
    OP("n_dim_vector", flat(n_dim_vector_generator<2>(i.t, i.n))),
    OP("square_sum", square_sum(i.d.getImageData())), OP("root_mean_square", root_mean_square(i.d.getImageData())),
    OP("recursive_fold", recursive_fold_right_all(grid(i), i.t, [](double a, double b) { return 0.5 * a + 0.25 * b; })), OP("pixel_sqrt", pixelwise_transform([](const RGB_DOUBLE& p) { return apply_multichannel(p, [](double x) { return std::sqrt(std::abs(x)); }); }, i.cd)),
});
} // namespace ops
