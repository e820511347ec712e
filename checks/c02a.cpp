// C02 (geometry): every execution policy gives the sequential result.
#include "common.h"
using namespace h;

template <class A, class B> static void conv(const char* w)
{
    auto x = image<A>(dim(10, 20), dim(10, 20)); auto y = image<B>(1 + sim::in().below(5), 1 + sim::in().below(5)); auto kx = x; auto ky = y;
    using O = std::common_type_t<A, B>;
    if (sim::in().chance(2, 3))
        policies(w, [&](auto&& p) { return conv2(p, x, y, false); }, [&] {
            size_t W = x.getWidth() + y.getWidth() - 1, H = x.getHeight() + y.getHeight() - 1; std::vector<O> v(W * H);
            for (size_t j = 0; j < x.getHeight(); ++j) for (size_t i = 0; i < x.getWidth(); ++i) for (size_t l = 0; l < y.getHeight(); ++l) for (size_t k = 0; k < y.getWidth(); ++k)
                v[(j + l) * W + i + k] += (O)x.at_without_boundary_check(i, j) * (O)y.at_without_boundary_check(k, l);
            return Image<O>(v, W, H);
        });
    else policies(w, [&](auto&& p) { return conv2(p, x, y, true); });
    expect("image operand of convolution", x, kx); expect("kernel operand of convolution", y, ky);
}
SCENARIO(conv2_int) { conv<int, int>("2-D convolution"); }
SCENARIO(conv2_double) { conv<double, double>("2-D convolution"); }
SCENARIO(conv2_u8_double) { conv<unsigned char, double>("2-D convolution"); }
SCENARIO(conv2_default)
{
    auto x = image<int>(dim(10, 20), dim(10, 20)); auto y = image<int>(1 + sim::in().below(4), 1 + sim::in().below(4));
    bool s = sim::in().chance(1, 2);
    differential("2-D convolution (default policy)", [&] { return conv2(x, y, s); }, [&] { return conv2(std::execution::seq, x, y, s); });
}
SCENARIO(convolution_nd)
{
    auto x = image<int>(dim(7, 12), dim(7, 12)); auto y = image<int>(1 + sim::in().below(3), 1 + sim::in().below(3));
    policies("N-D convolution", [&](auto&& p) { return convolution(p, x, y, false); });
}
SCENARIO(subimage)
{
    auto im = image<RGB>(); auto& g = sim::in(); RGB d = val<RGB>();
    size_t w = 1 + g.below(12), hh = 1 + g.below(12), cx = g.below(im.getWidth() + 4), cy = g.below(im.getHeight() + 4);
    policies("sub-image around a centre", [&](auto&& p) { return subimage(p, im, w, hh, cx, cy, d); }, [&] {
        std::vector<RGB> v; long x0 = (long)cx - (long)(w / 2), y0 = (long)cy - (long)(hh / 2);
        for (long y = 0; y < (long)hh; ++y) for (long x = 0; x < (long)w; ++x) { long a = x0 + x, b = y0 + y; v.push_back(a < 0 || b < 0 || a >= (long)im.getWidth() || b >= (long)im.getHeight() ? d : im.at_without_boundary_check((size_t)a, (size_t)b)); }
        return Image<RGB>(v, w, hh);
    });
}
template <class T> static void padding()
{
    auto& g = sim::in(); size_t W = 2 + dim(9, 9), H = 2 + dim(9, 9), ex = g.below(std::min<size_t>(W, 4)), ey = g.below(std::min<size_t>(H, 4));
    auto im = image<T>(W, H); auto keep = im; T d = val<T>(); auto b = boundary();
    auto at = [&](long x, long y) -> T {
        if (b == BoundaryCondition::constant) return x < 0 || y < 0 || x >= (long)W || y >= (long)H ? d : im.at_without_boundary_check((size_t)x, (size_t)y);
        if (b == BoundaryCondition::replicate) return im.at_without_boundary_check((size_t)std::clamp<long>(x, 0, W - 1), (size_t)std::clamp<long>(y, 0, H - 1));
        auto m = [](long v, long n) { if (v < 0) v = -v; if (v >= n) v = 2 * n - 2 - v; return v; };
        return im.at_without_boundary_check((size_t)m(x, W), (size_t)m(y, H));
    };
    (void)at;
    policies("padded image", [&](auto&& p) { return generate_padded_image(p, im, ex, ey, b, d); });
    expect("operand of padding", im, keep);
    if (b != BoundaryCondition::mirror) {
        auto got = generate_padded_image(std::execution::seq, im, ex, ey, b, d);
        std::vector<T> v; for (long y = -(long)ey; y < (long)(H + ey); ++y) for (long x = -(long)ex; x < (long)(W + ex); ++x) v.push_back(at(x, y));
        expect("padded image", got, Image<T>(v, W + 2 * ex, H + 2 * ey));
    }
}
SCENARIO(padding_u8) { padding<unsigned char>(); }
SCENARIO(padding_double) { padding<double>(); }
SCENARIO(padding_rgb) { padding<RGB>(); }
SCENARIO(split_overlap)
{
    auto& g = sim::in(); auto im = image<unsigned char>(5 + dim(8, 8), 5 + dim(8, 8)); size_t sx = 1 + g.below(3), sy = 1 + g.below(3), ex = g.below(3), ey = g.below(3); auto b = boundary();
    policies("overlapping split", [&](auto&& p) { return split_overlap(p, im, sx, sy, ex, ey, b); });
}
SCENARIO(lanczos_gray)
{
    auto im = image<unsigned char>(dim(9, 16), dim(9, 16)); size_t w = dim(9, 16), hh = dim(9, 16);
    policies("Lanczos resampling (gray)", [&](auto&& p) { return lanczos_resample(p, im, w, hh, 2); });
}
SCENARIO(lanczos_double)
{
    auto im = image<double>(dim(9, 16), dim(9, 16)); size_t w = dim(9, 16), hh = dim(9, 16);
    policies("Lanczos resampling (double)", [&](auto&& p) { return lanczos_resample(p, im, w, hh); });
}
SCENARIO(lanczos_rgb)
{
    auto im = image<RGB>(dim(6, 10), dim(6, 10)); size_t w = dim(6, 10), hh = dim(6, 10);
    policies("Lanczos resampling (RGB)", [&](auto&& p) { return lanczos_resample(p, im, w, hh, 2); });
}
template <class T> static void transp()
{
    auto im = image<T>(); size_t W = im.getWidth(), H = im.getHeight();
    policies("transpose", [&](auto&& p) { return transpose(p, im); }, [&] { std::vector<T> v(W * H); for (size_t y = 0; y < H; ++y) for (size_t x = 0; x < W; ++x) v[x * H + y] = im.at_without_boundary_check(x, y); return Image<T>(v, H, W); });
}
SCENARIO(transpose_u8) { transp<unsigned char>(); }
SCENARIO(transpose_rgb) { transp<RGB>(); }
SCENARIO(paste)
{
    auto b = image<RGB>(dim(10, 20), dim(10, 20)), t = image<RGB>(dim(10, 20), dim(10, 20)); auto& g = sim::in(); size_t x = g.below(12), y = g.below(12); RGB d = val<RGB>();
    policies("paste", [&](auto&& p) { return paste2D(p, b, t, x, y, d); }, [&] {
        size_t W = std::max(b.getWidth(), t.getWidth() + x), H = std::max(b.getHeight(), t.getHeight() + y); std::vector<RGB> v(W * H, d);
        for (size_t j = 0; j < b.getHeight(); ++j) for (size_t i = 0; i < b.getWidth(); ++i) v[j * W + i] = b.at_without_boundary_check(i, j);
        for (size_t j = 0; j < t.getHeight(); ++j) for (size_t i = 0; i < t.getWidth(); ++i) v[(j + y) * W + i + x] = t.at_without_boundary_check(i, j);
        return Image<RGB>(v, W, H);
    });
}
SCENARIO(centre)
{
    auto im = image<int>();
    policies("centre location", [&](auto&& p) { return get_center_location(p, im); }, [&] { auto s = im.getSize(); for (auto& v : s) v /= 2; return s; });
    policies("centre pixel", [&](auto&& p) { return (int)get_center_pixel(p, im); });
}
static linalg::Matrix<double> homography()
{
    auto& g = sim::in(); linalg::Matrix<double> H(3, 3);
    H.at(0, 0) = 1 + 0.1 * g.range(-3, 3); H.at(0, 1) = 0.1 * g.range(-3, 3); H.at(0, 2) = g.range(-4, 4); H.at(1, 0) = 0.1 * g.range(-3, 3); H.at(1, 1) = 1 + 0.1 * g.range(-3, 3); H.at(1, 2) = g.range(-4, 4); H.at(2, 0) = 0.01 * g.range(-2, 2); H.at(2, 1) = 0.01 * g.range(-2, 2); H.at(2, 2) = 1;
    return H;
}
SCENARIO(warp_policy)
{
    Mute m; auto im = image<RGB>(dim(8, 16, true), dim(8, 16, true)); auto H = homography(); size_t w = dim(10, 20, true), hh = dim(10, 20, true); warp_perspective<RGB> wp;
    policies("perspective warp", [&](auto&& p) { return wp(p, im, H, w, hh); });
}
SCENARIO(fisheye_policy)
{
    auto im = image<double>(dim(10, 10), dim(10, 10)); double d0 = 2 + (double)sim::in().below(20);
    policies("gaussian fisheye", [&](auto&& p) { return gaussian_fisheye(p, im, d0); });
}
SCENARIO(gaussian_figure_policy)
{
    auto& g = sim::in(); size_t w = dim(), hh = dim(), cx = g.below(w), cy = g.below(hh); double a = 1 + g.below(5), b = 1 + g.below(5), rho = g.below(9) * 0.1;
    policies("elliptical gaussian figure", [&](auto&& p) { return gaussianFigure2D(p, w, hh, cx, cy, a, b, rho, 1.0); });
    GaussianParameters2D<double> q{1.0, (double)cx, (double)cy, a, b, rho};
    policies("elliptical gaussian figure from parameters", [&](auto&& p) { return gaussianFigure2D(p, w, hh, q, 1.0); });
}
SCENARIO(dct3_plane_policy)
{
    auto& g = sim::in(); size_t n = 1 + g.below(3), w = 1 + g.below(5), hh = 1 + g.below(5); std::vector<Image<double>> v; for (size_t i = 0; i < n; ++i) v.push_back(image<double>(w, hh));
    size_t k = g.below(n);
    policies("plane of the 3-D cosine transform", [&](auto&& p) { return dct3_one_plane(p, v, k); });
}
