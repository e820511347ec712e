#include "c16_ops.h"
namespace ops {
static std::string text(const Image<double>& a) { std::ostringstream o; a.print(" ", o); return o.str(); }
static RGB red() { RGB r; r.channels[0] = 200; r.channels[1] = 10; r.channels[2] = 20; return r; }
static Point<2> pt(size_t x, size_t y) { Point<2> p; p.p[0] = x; p.p[1] = y; return p; }
template <class T> static auto hist(const Image<T>& a) { Histogram<T> hh(a); std::vector<double> v; for (auto x : hh.to_probabilities_vector()) v.push_back((double)x); v.push_back((double)hh.getCountSum()); return v; }
static std::vector<double> parts(const std::vector<std::vector<Image<double>>>& v) { std::vector<double> o; for (auto& a : v) for (auto& b : a) for (auto x : b.getImageData()) o.push_back(x); return o; }
static Add add_ops(std::vector<Op>{
        OP("plus", i.d + i.e), OP("minus", i.d - i.e), OP("add", add(i.d, i.e)), OP("subtract", subtract(i.d, i.e)), OP("divides", divides(i.d, multiplies(i.e, i.t))), OP("pixelwise_multiplies", pixelwise_multiplies(i.d, i.e)), OP("pow", pow(i.d, (int)i.n)), OP("abs", abs(subtract(i.d, i.e))),
        OP("sin", sin(i.d)), OP("cos", cos(i.d)), OP("concat_horizontal", concat_horizontal(i.d, i.e)), OP("concat_vertical", concat_vertical(i.c, i.c)), OP("split", parts(split(i.d, i.n, 2))), OP("concat", concat(split(i.d, 2, i.n))),
        OP("subimage", subimage(i.d, 3, 3, i.w / 2, 1 + i.n % 2)), OP("subimage2", subimage2(i.d, 1 + i.n % 2, i.w - 2, 1, i.hh - 2)), OP("transpose", transpose(i.d)), OP("paste2D", paste2D(i.d, i.k, i.n, 1, i.t)), OP("add_border_2d", add_border_2d(std::execution::seq, i.d, i.n, i.t)),
        OP("conv2", conv2(i.d, i.k)), OP("conv2_same", conv2(i.d, i.k, true)), OP("conv2_rgb", conv2(i.cd, i.k)), OP("convolution", convolution(i.d, i.k)),
        OP("draw_point", draw_point(i.c, pt(i.w / 2, i.n), red(), i.n)), OP("draw_circle", draw_circle(i.c, std::make_tuple(i.w / 2, i.hh / 2), i.n, red())), OP("draw_line", draw_line(i.c, pt(i.n, 1), pt(i.w - 1, i.hh - 1), red())),
        OP("histogram", hist(i.g)), OP("histogram_sum", Histogram<int>(i.d.cast<int>()).getCountSum()), OP("histogram_with_bins", histogram_with_bins<8>(i.g)), OP("otsu", otsu_threshold(histogram(i.g))),
        OP("apply_each_pixel_openmp", apply_each_pixel_openmp(i.d, [t = i.t](double x) { return x * t - 1; })), OP("threshold", apply_threshold_openmp(i.d, 40.0 * i.t)), OP("pixelwise_transform", pixelwise_transform([t = i.t](double x) { return x / t; }, i.d)),
        OP("windowed_filter", windowed_filter(std::execution::par, i.d, std::vector<size_t>{1, i.n}, [](const Image<double>& x) { return x.at_without_boundary_check(size_t(0), size_t(0)); }, BoundaryCondition::mirror, 0.0)),
        OP("bilateral_filter", bilateral_filter(std::execution::seq, i.d, std::vector<size_t>{1, i.n}, [t = i.t](double x) { return 1 / (t + x * x); }, [](double x) { return 1 / (1 + x * x); })),
        OP("gaussian_fisheye", gaussian_fisheye(i.d, 4 * i.t)), OP("rotate", rotate(i.d, i.angle)), OP("rotate_rgb", rotate(i.c, i.angle)),
        OP("orientation_histogram", SIFT_impl::get_orientation_histogram(i.d, pt(i.w / 2, i.hh / 2), 1 + i.n % 2)), OP("keypoint_descriptor", SIFT_impl::get_keypoint_descriptor(i.d, pt(i.w / 2, i.hh / 2))), OP("generate_octave", SIFT_impl::generate_octave(i.d, 2 + (size_t)i.flag, 0.3, 1.1 + 0.02 * i.t)), OP("bilinear", bilinear_interpolate(i.d, i.t, i.sigma)),
        OP("print", text(i.d)), OP("cast", i.d.cast<int>()), OP("multichannel_plane", getPlane<4>(i.m, i.n)),
        OP("to_complex", to_complex(i.d)), OP("is_symmetry", is_symmetry(i.d)), OP("is_equal", i.d == i.e),
});
} // namespace ops
