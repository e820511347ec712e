#include "c16_ops.h"
namespace ops {
static Point<2> pt(size_t x, size_t y) { Point<2> p; p.p[0] = x; p.p[1] = y; return p; }
static linalg::Matrix<double> homography(const In& i)
{
    linalg::Matrix<double> m(3, 3); m.at(0, 0) = 1 + 0.05 * i.t; m.at(0, 1) = 0.1 * i.sigma; m.at(0, 2) = (double)i.n; m.at(1, 0) = -0.1 * i.sigma; m.at(1, 1) = 1.1; m.at(1, 2) = 1; m.at(2, 0) = 0.001 * i.t; m.at(2, 1) = 0; m.at(2, 2) = 1;
    return m;
}
static std::vector<std::vector<double>> descs(const Image<double>& a) { std::vector<std::vector<double>> v; for (size_t y = 0; y < a.getHeight(); ++y) { v.emplace_back(); for (size_t x = 0; x < 4; ++x) v.back().push_back(a.at_without_boundary_check(x, y)); } return v; }
static std::vector<double> nested(const In& i)
{
    std::vector<std::vector<double>> v(i.n, i.d.getImageData()); auto f = recursive_transform<2>([t = i.t](double x) { return x * t; }, v); std::vector<double> o;
    for (auto& r : f) for (double x : r) o.push_back(x);
    return o;
}
static std::vector<Image<double>> stack(const In& i) { std::vector<Image<double>> v; for (size_t k = 0; k < i.n + 1; ++k) v.push_back(k % 2 ? i.e : i.d); return v; }
static std::string listing(const In& i) { std::ostringstream o; o << i.d; return o.str(); }
static Add add_ops(std::vector<Op>{
        OP("getSplane", getSplane(i.v)), OP("histogram_normalized", histogram_normalized(i.g)), OP("histogram_normalized_int", histogram_normalized(i.d.cast<int>())), OP("highlight_region", highlight_region(i.c, 1 + i.n % 2, i.w - 2, 1, i.hh - 2, 1 + (size_t)i.flag)),
        OP("gaussianFigure1D", gaussianFigure1D(i.w, i.n, i.sigma, i.flag)), OP("gaussianFigure2D_axes", gaussianFigure2D(i.w, i.hh, i.n, i.n, i.sigma, i.t, i.flag)), OP("gaussianFigure3D", gaussianFigure3D(i.w, i.hh, i.n, i.w / 2, i.n, size_t(1), i.sigma, i.t, 1.5)),
        OP("idft2", idft2(dft2(i.k))), OP("modulus", modulus(i.g.cast<int>(), i.g.cast<int>() + Image<int>(std::vector<int>(i.g.count(), (int)i.n), i.w, i.hh))), OP("minmax", [&] { auto r = minmax(i.d); return std::vector<double>{r.min, r.max}; }()),
        OP("butterworth_fisheye", butterworth_fisheye(i.d, 4 * i.t, (double)i.n)), OP("rotate_degree", rotate_degree(i.d, 10 * i.angle)), OP("rotate_shear", rotate_detail_shear_transformation(i.d, i.angle)), OP("rotate_shear_degree", rotate_detail_shear_transformation_degree(i.d, 20.0 * i.angle)),
        OP("generate_complex_image", generate_complex_image(i.d, i.e)), OP("addChannel", addChannel(i.m, i.d)),
        OP("constant_padding", generate_constant_padding_image(i.d, i.n, 1, i.t)), OP("mirror_padding", generate_mirror_padding_image(i.d, i.n, 2)), OP("replicate_padding", generate_replicate_padding_image(i.d, 1, i.n)),
        OP("pixel_orientation", SIFT_impl::compute_each_pixel_orientation(subimage(i.d, 3, 3, 1 + i.n % 2, 2))), OP("local_extrema", SIFT_impl::find_local_extrema(i.d, i.e, i.d, i.n, 1, 10 * i.t, 12.1, i.flag)), OP("mapping_point", SIFT_impl::mapping_point(std::make_tuple(i.t, i.sigma), i.w, i.hh, 2 * i.w, i.n * i.hh)),
        OP("warp_perspective", warp_perspective<RGB>{}(i.c, homography(i), i.w, i.hh)), OP("stitched", create_stitched_image(i.c, i.c, homography(i))), OP("invert", linalg::invert(homography(i))), OP("multiply_matrices", linalg::multiply(homography(i), homography(i))),
        OP("raw_matches", find_raw_matches(descs(i.d), descs(i.e), 0.2 * i.t)), OP("robust_matches", find_robust_matches(descs(i.d), descs(i.e), 0.2 * i.t)), OP("keypoint_matches", find_keypoint_matches(std::execution::seq, descs(i.d), descs(i.e), 0.2 * i.t)),
        OP("robust_homography", [&] { std::mt19937 r((unsigned)i.n); std::vector<Point<2>> p, q; std::vector<std::pair<size_t, size_t>> m; for (size_t k = 0; k < 7; ++k) { p.push_back(pt(k * 3 % 7, k * k)); q.push_back(pt(k * 3 % 7 + (k == 5 ? i.n : 2), k * k + i.n)); m.push_back({k, k}); } return find_homography_robust<double>(p, q, m, r, i.flag ? RobustEstimatorMethod::MSAC : RobustEstimatorMethod::RANSAC, 4, i.t); }()),
        OP("rand_image", [&] { std::mt19937 r((unsigned)i.n); return rand<double>(r, i.w, i.hh); }()), OP("randi_image", [&] { std::mt19937 r((unsigned)i.n); return randi<int>(r, std::pair<int, int>{(int)i.n, (int)(4 * i.t)}, i.w, i.hh); }()),
        OP("recursive_transform", nested(i)), OP("dct3", dct3(stack(i))), OP("fill", [&] { auto a = i.d; a.setAllValue(i.t); return a; }()), OP("listing", listing(i)), OP("recursive_reduce", recursive_reduce(stack(i)[0].getImageData(), i.t)),
        OP("pixelwise_3", pixelwise_transform([t = i.t](double a, double b, unsigned char c) { return a * t + b - c; }, i.d, i.e, i.g)), OP("apply_each_rgb", apply_each(i.cd, [t = i.t](auto&& p) { return p * t; })), OP("apply_each_hsv", apply_each(i.v, [t = i.t](auto&& p) { return p * t; })),
        OP("conv2_double", conv2(i.k, i.d)), OP("lanczos_fig", lanczos_resample(i.cd, i.w, i.hh / 2 + i.n)), OP("to_string", std::to_string(sum(i.d))),
});
} // namespace ops
