// C02 (window filters and composed operations): every execution policy gives the sequential result.
#include "common.h"
using namespace h;

template <class T> static void windowed()
{
    auto& g = sim::in(); auto im = image<T>(3 + dim(6, 6), 3 + dim(6, 6)); auto keep = im; std::vector<size_t> ws{1 + 2 * (size_t)g.below(2), 1 + 2 * (size_t)g.below(2)}; auto b = boundary(); int kind = (int)g.below(3);
    policies("windowed filter", [&](auto&& p) {
        return windowed_filter<T>(p, im, ws, [&](auto&& w) {
            auto d = w.getImageData(); T s{}, lo = d[0];
            for (size_t i = 0; i < d.size(); ++i) { s = s + d[i]; if (d[i] < lo) lo = d[i]; }
            return kind == 0 ? s : kind == 1 ? lo : T(d[0] * 3 + d[d.size() - 1]);
        }, b);
    });
    expect("operand of windowed filter", im, keep);
}
SCENARIO_W(windowed_int, 2) { windowed<int>(); }
SCENARIO(windowed_double) { windowed<double>(); }
SCENARIO(bilateral_gray)
{
    auto im = image<double>(3 + dim(4, 4), 3 + dim(4, 4)); std::vector<size_t> ws{3, 3}; auto b = boundary();
    policies("bilateral filter", [&](auto&& p) { return bilateral_filter(p, im, ws, [](double v) { return std::exp(-v * v / 200); }, [](double v) { return std::exp(-v * v / 2); }, b); });
}
SCENARIO(bilateral_rgb)
{
    auto& g = sim::in(); auto im = image<RGB_DOUBLE>(4 + g.below(2), 4 + g.below(2)); std::vector<size_t> ws{3, 3}; auto b = boundary();
    policies("bilateral filter (colour)", [&](auto&& p) { return bilateral_filter(p, im, ws, [](double v) { return std::exp(-v * v / 200); }, [](double v) { return std::exp(-v * v / 2); }, b); });
}
SCENARIO(gauss_filter)
{
    auto& g = sim::in(); auto im = image<double>(5 + dim(5, 5), 5 + dim(5, 5)); double s1 = 1 + 0.5 * g.below(3), s2 = 1 + 0.5 * g.below(3); int f1 = 1 + 2 * (int)g.below(2), f2 = 1 + 2 * (int)g.below(2); auto b = boundary();
    policies_near("gaussian filter", [&](auto&& p) { return imgaussfilt(p, im, s1, s2, f1, f2, b); });
}
SCENARIO(gauss_filter_rotated)
{
    auto& g = sim::in(); auto im = image<double>(6 + g.below(4), 6 + g.below(4)); double r = 0.1 * g.below(7);
    policies_near("rotated gaussian filter", [&](auto&& p) { return imgaussfilt(p, im, 1.0, 1.5, r, (size_t)3, (size_t)3, BoundaryCondition::mirror); });
}
SCENARIO(gauss_filter_rgb)
{
    auto& g = sim::in(); auto im = image<RGB_DOUBLE>(6 + g.below(3), 6 + g.below(3));
    policies_near("rotated gaussian filter (colour)", [&](auto&& p) { return imgaussfilt(p, im, 1.0, 1.5, 0.2, (size_t)3, (size_t)3, BoundaryCondition::mirror); }, 1e-6);
}
SCENARIO(stitch_policy)
{
    Mute m; auto& g = sim::in(); auto a = image<RGB>(4 + g.below(5), 4 + g.below(5)), b = image<RGB>(4 + g.below(5), 4 + g.below(5)); linalg::Matrix<double> H(3, 3);
    H.at(0, 0) = 1; H.at(1, 1) = 1; H.at(2, 2) = 1; H.at(0, 2) = g.range(-4, 4); H.at(1, 2) = g.range(-4, 4); H.at(0, 1) = H.at(1, 0) = H.at(2, 0) = H.at(2, 1) = 0;
    policies("image blending", [&](auto&& p) { return create_stitched_image(p, a, b, H); });
}
