// C01: OpenMP-parallel pixel operations give the one-thread result under every schedule and team size.
#include "common.h"
using namespace h;

template <class T> static void flips(const char* w)
{
    auto im = image<T>(); auto keep = im; size_t W = im.getWidth(), H = im.getHeight();
    auto mk = [&](auto f) { return [&, f] { std::vector<T> v(W * H); for (size_t y = 0; y < H; ++y) for (size_t x = 0; x < W; ++x) { auto [a, b] = f(x, y); v[b * W + a] = im.at_without_boundary_check(x, y); } return Image<T>(v, W, H); }; };
    switch (sim::in().below(3)) {
    case 0: differential(w, [&] { return flip_horizontal(im); }, mk([=](size_t x, size_t y) { return std::pair(W - 1 - x, y); })); break;
    case 1: differential(w, [&] { return flip_vertical(im); }, mk([=](size_t x, size_t y) { return std::pair(x, H - 1 - y); })); break;
    default: differential(w, [&] { return flip_horizontal_vertical(im); }, mk([=](size_t x, size_t y) { return std::pair(W - 1 - x, H - 1 - y); }));
    }
    expect("operand of flip", im, keep);
}
SCENARIO(flip_u8) { flips<unsigned char>("flip"); }
SCENARIO(flip_rgb) { flips<RGB>("flip"); }
SCENARIO(flip_double) { flips<double>("flip"); }

SCENARIO(get_plane_rgb)
{
    auto im = image<RGB>(); auto keep = im; size_t c = sim::in().below(3);
    differential("channel plane of an RGB image", [&] { return getPlane(im, c); }, [&] { std::vector<unsigned char> v; auto d = im.getImageData(); for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i].channels[c]); return Image<unsigned char>(v, im.getSize()); });
    expect("operand of plane extraction", im, keep);
}
SCENARIO(get_plane_hsv)
{
    auto im = image<HSV>(); size_t c = sim::in().below(3);
    differential("channel plane of an HSV image", [&] { return getPlane(im, c); }, [&] { std::vector<double> v; auto d = im.getImageData(); for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i].channels[c]); return Image<double>(v, im.getSize()); });
}
SCENARIO(get_plane_multi)
{
    auto im = image<MultiChannel<double, 5>>(); size_t c = sim::in().below(5);
    differential("channel plane of a multi-channel image", [&] { return getPlane<5>(im, c); }, [&] { std::vector<double> v; auto d = im.getImageData(); for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i].channels[c]); return Image<double>(v, im.getSize()); });
}
template <class O, class T, class F> static void construct(const char* w, F f)
{
    size_t W = dim(), H = dim();
    auto a = image<T>(W, H), b = image<T>(W, H), c = image<T>(W, H); auto ka = a, kb = b, kc = c;
    differential(w, [&] { return f(a, b, c); }, [&] { std::vector<O> v(W * H); auto x = a.getImageData(), y = b.getImageData(), z = c.getImageData(); for (size_t i = 0; i < v.size(); ++i) { v[i].channels[0] = x[i]; v[i].channels[1] = y[i]; v[i].channels[2] = z[i]; } return Image<O>(v, W, H); });
    expect("operand 1 of channel assembly", a, ka); expect("operand 2 of channel assembly", b, kb); expect("operand 3 of channel assembly", c, kc);
}
SCENARIO(construct_rgb) { construct<RGB, unsigned char>("RGB assembly", [](auto& a, auto& b, auto& c) { return constructRGB(a, b, c); }); }
SCENARIO(construct_rgbd) { construct<RGB_DOUBLE, double>("RGB_DOUBLE assembly", [](auto& a, auto& b, auto& c) { return constructRGBDOUBLE(a, b, c); }); }
SCENARIO(construct_hsv) { construct<HSV, double>("HSV assembly", [](auto& a, auto& b, auto& c) { return constructHSV(a, b, c); }); }
SCENARIO(construct_multi3) { construct<MultiChannel<int, 3>, int>("three-channel assembly", [](auto& a, auto& b, auto& c) { return constructMultiChannel(a, b, c); }); }
SCENARIO(construct_multi2)
{
    size_t W = dim(), H = dim(); auto a = image<int>(W, H), b = image<int>(W, H);
    differential("two-channel assembly", [&] { return constructMultiChannel(a, b); }, [&] { std::vector<MultiChannel<int, 2>> v(W * H); auto x = a.getImageData(), y = b.getImageData(); for (size_t i = 0; i < v.size(); ++i) { v[i].channels[0] = x[i]; v[i].channels[1] = y[i]; } return Image<MultiChannel<int, 2>>(v, W, H); });
}
SCENARIO(construct_multi5)
{
    size_t W = dim(8), H = dim(8); auto a = image<int>(W, H), b = image<int>(W, H), c = image<int>(W, H), d = image<int>(W, H), e = image<int>(W, H);
    differential("five-channel assembly", [&] { return constructMultiChannel(a, b, c, d, e); });
}
SCENARIO(convert_image)
{
    auto im = image<RGB>(); auto k = im;
    if (sim::in().chance(1, 2)) differential("conversion RGB to RGB_DOUBLE", [&] { return convert_image<RGB_DOUBLE>(im); }, [&] { std::vector<RGB_DOUBLE> v(im.count()); auto d = im.getImageData(); for (size_t i = 0; i < v.size(); ++i) for (int c = 0; c < 3; ++c) v[i].channels[c] = d[i].channels[c]; return Image<RGB_DOUBLE>(v, im.getSize()); });
    else {
        auto dm = image<RGB_DOUBLE>();
        differential("conversion RGB_DOUBLE to RGB", [&] { return convert_image<RGB>(dm); }, [&] { std::vector<RGB> v(dm.count()); auto d = dm.getImageData(); for (size_t i = 0; i < v.size(); ++i) for (int c = 0; c < 3; ++c) v[i].channels[c] = (unsigned char)d[i].channels[c]; return Image<RGB>(v, dm.getSize()); });
    }
    expect("operand of conversion", im, k);
}
SCENARIO(per_pixel_function)
{
    auto im = image<int>(); int k = (int)sim::in().range(-5, 5);
    differential("per-pixel function (OpenMP)", [&] { return apply_each_pixel_openmp(im, [](int v, int m) { return v * m + 3; }, k); }, [&] { auto d = im.getImageData(); std::vector<int> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i] * k + 3); return Image<int>(v, im.getSize()); });
}
SCENARIO(threshold)
{
    auto im = image<unsigned char>(); unsigned char t = val<unsigned char>();
    differential("threshold (OpenMP)", [&] { return apply_threshold_openmp(im, t); }, [&] { auto d = im.getImageData(); std::vector<unsigned char> v; for (size_t i = 0; i < d.size(); ++i) v.push_back(d[i] > t ? 255 : 0); return Image<unsigned char>(v, im.getSize()); });
}
SCENARIO(subimage2)
{
    auto im = image<RGB>(); size_t W = im.getWidth(), H = im.getHeight(); auto& g = sim::in();
    size_t x0 = g.below(W), x1 = x0 + g.below(W - x0), y0 = g.below(H), y1 = y0 + g.below(H - y0);
    differential("sub-image", [&] { return subimage2(im, x0, x1, y0, y1); }, [&] { std::vector<RGB> v; for (size_t y = y0; y <= y1; ++y) for (size_t x = x0; x <= x1; ++x) v.push_back(im.at_without_boundary_check(x, y)); return Image<RGB>(v, x1 - x0 + 1, y1 - y0 + 1); });
}
SCENARIO(resize_nearest)
{
    auto im = image<RGB>(); size_t w = dim(), hh = dim();
    differential("nearest-neighbour resize", [&] { return resize_nearest_neighbor(im, w, hh); });
}
SCENARIO(resize_bicubic_gray)
{
    auto im = image<unsigned char>(dim(8, 20), dim(8, 20)); size_t w = dim(9, 24), hh = dim(9, 24);
    differential("bicubic resize (gray)", [&] { return copyResizeBicubic(im, w, hh); });
}
SCENARIO(resize_bicubic_rgb)
{
    auto im = image<RGB>(dim(8, 16), dim(8, 16)); size_t w = dim(7, 16), hh = dim(7, 16);
    differential("bicubic resize (RGB)", [&] { return copyResizeBicubic(im, w, hh); });
}
SCENARIO(draw_point)
{
    auto im = image<RGB>(); auto& g = sim::in(); Point<2> p; p.p[0] = g.below(im.getWidth() + 3); p.p[1] = g.below(im.getHeight() + 3); size_t r = g.below(6); RGB c = val<RGB>();
    differential("point drawing", [&] { return draw_point(im, p, c, r); });
}
SCENARIO(draw_points)
{
    size_t W = sim::in().chance(1, 40) ? 70 : 16; auto im = image<unsigned char>(W, W); auto& g = sim::in(); std::vector<Point<2>> ps; for (size_t i = 0, n = 1 + g.below(4); i < n; ++i) { Point<2> p; p.p[0] = g.below(W); p.p[1] = g.below(W); ps.push_back(p); }
    differential("points drawing", [&] { return draw_points(im, ps, (unsigned char)9, size_t(2)); });
}
SCENARIO(gaussian_figure)
{
    auto& g = sim::in(); size_t w = dim(), hh = dim(), cx = g.below(w), cy = g.below(hh); double a = 1 + g.below(5), b = 1 + g.below(5), rho = g.below(9) * 0.1;
    differential("elliptical gaussian figure", [&] { return gaussianFigure2D(w, hh, cx, cy, a, b, rho, 1.0); });
}
SCENARIO(dct3)
{
    auto& g = sim::in(); size_t n = 1 + g.below(3), w = 1 + g.below(5), hh = 1 + g.below(5); std::vector<Image<double>> v; for (size_t i = 0; i < n; ++i) v.push_back(image<double>(w, hh));
    if (g.chance(1, 2)) differential("3-D cosine transform", [&] { return dct3(v); });
    else differential("3-D inverse cosine transform", [&] { std::vector<Image<double>> o; for (size_t i = 0; i < v.size(); ++i) o.push_back(idct3_one_plane(v, i)); return o; });
}
SCENARIO(fisheye)
{
    auto im = image<double>(dim(10, 10), dim(10, 10)); double d0 = 2 + (double)sim::in().below(20);
    differential("gaussian fisheye", [&] { return gaussian_fisheye(im, d0); });
}
SCENARIO(warp)
{
    auto im = image<RGB>(dim(8, 16, true), dim(8, 16, true)); auto& g = sim::in(); linalg::Matrix<double> H(3, 3);
    H.at(0, 0) = 1 + 0.1 * g.range(-3, 3); H.at(0, 1) = 0.1 * g.range(-3, 3); H.at(0, 2) = g.range(-4, 4); H.at(1, 0) = 0.1 * g.range(-3, 3); H.at(1, 1) = 1 + 0.1 * g.range(-3, 3); H.at(1, 2) = g.range(-4, 4); H.at(2, 0) = 0.01 * g.range(-2, 2); H.at(2, 1) = 0.01 * g.range(-2, 2); H.at(2, 2) = 1;
    size_t w = dim(10, 20, true), hh = dim(10, 20, true);
    warp_perspective<RGB> wp;
    differential("perspective warp", [&] { return wp(im, H, w, hh); });
}
SCENARIO(stitch_blend)
{
    Mute m;
    auto a = image<RGB>(4 + sim::in().below(8), 4 + sim::in().below(8)), b = image<RGB>(4 + sim::in().below(8), 4 + sim::in().below(8)); auto& g = sim::in(); linalg::Matrix<double> H(3, 3);
    H.at(0, 0) = 1; H.at(1, 1) = 1; H.at(2, 2) = 1; H.at(0, 2) = g.range(-6, 6); H.at(1, 2) = g.range(-6, 6); H.at(0, 1) = H.at(1, 0) = H.at(2, 0) = H.at(2, 1) = 0;
    differential("image blending", [&] { return create_stitched_image(a, b, H); });
}
SCENARIO(dog_octave)
{
    auto im = image<double>(13 + sim::in().below(4), 13 + sim::in().below(4)); size_t n = 2 + sim::in().below(3);
    differential("difference-of-gaussian octave", [&] { return SIFT_impl::generate_octave(im, n, 0.8); });
}
