// C05: feature detection and matching are complete and do not depend on scheduling.
#include "common.h"
using namespace h;
using KP = std::tuple<size_t, size_t, double, double>;
using M = std::vector<std::pair<size_t, size_t>>;

// interior pixels of b that are strict extrema of the 3x3x3 neighbourhood, in scan order
static std::vector<std::pair<size_t, size_t>> extrema(const Image<double>& a, const Image<double>& b, const Image<double>& c, double thr)
{
    std::vector<std::pair<size_t, size_t>> o; long W = (long)b.getWidth(), H = (long)b.getHeight();
    for (long y = 1; y + 1 < H; ++y) for (long x = 1; x + 1 < W; ++x) {
        double v = b.at_without_boundary_check((size_t)x, (size_t)y); if (std::fabs(v) <= thr) continue;
        bool mx = true, mn = true;
        for (int k = 0; k < 3; ++k) for (long j = -1; j <= 1; ++j) for (long i = -1; i <= 1; ++i) {
            if (k == 1 && !i && !j) continue;
            double u = (k == 0 ? a : k == 1 ? b : c).at_without_boundary_check((size_t)(x + i), (size_t)(y + j));
            mx &= v > u; mn &= v < u;
        }
        if (mx || mn) o.push_back({(size_t)x, (size_t)y});
    }
    return o;
}
static Image<double> sub3(const Image<double>& b, size_t x, size_t y)
{
    std::vector<double> v; for (size_t j = y - 1; j <= y + 1; ++j) for (size_t i = x - 1; i <= x + 1; ++i) v.push_back(b.at_without_boundary_check(i, j));
    return Image<double>(v, size_t(3), size_t(3));
}
SCENARIO_W(local_extrema, 3)
{
    auto& g = sim::in(); size_t W = 3 + g.below(12), H = 3 + g.below(12); if (g.chance(1, 25)) { W = 3 + g.below(50); H = 3 + g.below(50); } auto a = image<double>(W, H), b = image<double>(W, H), c = image<double>(W, H);
    // plant some peaks so that several rows have extrema
    for (size_t i = 0, n = g.below(8); i < n; ++i) b.at_without_boundary_check(g.below(W), g.below(H)) = (double)(g.chance(1, 2) ? 300 + (int64_t)g.below(200) : -50 - (int64_t)g.below(200));
    double thr = (double)g.below(20); size_t oi = g.below(4), si = g.below(4); bool filt = g.chance(1, 3);
    std::vector<KP> want;
    for (auto [x, y] : extrema(a, b, c, thr)) {
        auto s = sub3(b, x, y);
        if (filt && !SIFT_impl::keypoint_filtering(s, thr, 12.1)) continue;
        auto l = SIFT_impl::keypoint_refinement(s, std::make_tuple(x, y)); want.push_back({oi, si, std::get<0>(l), std::get<1>(l)});
    }
    auto ka = a, kb = b, kc = c;
    sim::run([&] { std::vector<KP> got = SIFT_impl::find_local_extrema(a, b, c, oi, si, thr, 12.1, filt); expect("local extrema", got, want); dig(got); });
    expect("operand of the search for extrema", a, ka); expect("operand of the search for extrema", b, kb); expect("operand of the search for extrema", c, kc);
}
static Image<double> texture(size_t W, size_t H)
{
    auto& g = sim::in(); std::vector<double> v(W * H, 100.0);
    for (int i = 0, n = (int)((3 + g.below(8)) * W / 20); i < n; ++i) { long cx = (long)g.below(W), cy = (long)g.below(H), r = 1 + (long)g.below(3 + W / 20); double d = (double)g.range(-90, 150);
        for (long y = std::max(0L, cy - r); y <= std::min((long)H - 1, cy + r); ++y) for (long x = std::max(0L, cx - r); x <= std::min((long)W - 1, cx + r); ++x) v[y * W + x] = 100 + d; }
    return Image<double>(v, W, H);
}
static std::vector<std::array<size_t, 2>> pts(const std::vector<Point<2>>& v) { std::vector<std::array<size_t, 2>> o; for (auto& p : v) o.push_back({p.p[0], p.p[1]}); return o; }
SCENARIO(keypoints)
{
    Mute m; auto& g = sim::in(); size_t W = 20 + g.below(8), H = 20 + g.below(8), oct = 1 + g.below(3), lev = 3 + g.below(3);
    if (g.chance(1, 5)) { W = 40 + g.below(6); H = 40 + g.below(6); oct = 2 + g.below(2); lev = 4 + g.below(2); } else if (g.chance(1, 40)) { W = 80 + g.below(5); H = 80 + g.below(5); oct = 3; lev = 4; } // two and three octaves deep
    auto im = texture(W, H); double thr = g.chance(1, 2) ? 0.5 : 2.0;
    auto op = [&](auto&& p) { return pts(SIFT_impl::get_potential_keypoint(p, im, oct, lev, 0.7, 1.3, thr, 12.1)); };
    // expected: octave after octave, scale after scale, scan order within
    std::vector<std::array<size_t, 2>> want; Image<double> base = im;
    for (size_t o = 0; o < oct && base.getWidth() >= 20 && base.getHeight() >= 20; ++o) {
        auto dog = SIFT_impl::generate_octave(base, lev, 0.7, 1.3);
        for (size_t s = 0; s + 2 < dog.size(); ++s) for (auto [x, y] : extrema(dog[s], dog[s + 1], dog[s + 2], thr)) {
            auto l = SIFT_impl::keypoint_refinement(sub3(dog[s + 1], x, y), std::make_tuple(x, y));
            auto p = SIFT_impl::mapping_point(l, base.getWidth(), base.getHeight(), W, H); want.push_back({p.p[0], p.p[1]});
        }
        base = lanczos_resample(base, base.getWidth() / 2, base.getHeight() / 2);
    }
    sim::run([&] {
        auto got = sim::decide(sim::K_MISC, 4) ? op(std::execution::par) : op(std::execution::seq);
        expect("potential keypoints", got, want); for (auto& p : got) dig(p);
    });
    sim::cover(want.size());
}
using D = std::vector<std::vector<double>>;
static D descs(size_t n, size_t len)
{
    auto& g = sim::in(); D d(n);
    for (auto& v : d) { v.resize(len); for (auto& x : v) x = (double)g.below(5); }
    return d;
}
static double d2(const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static M ratio(const D& a, const D& b, double r)
{
    M o; if (a.empty() || b.empty()) return o;
    for (size_t i = 0; i < a.size(); ++i) {
        std::vector<std::pair<double, size_t>> v; for (size_t j = 0; j < b.size(); ++j) v.push_back({d2(a[i], b[j]), j});
        std::sort(v.begin(), v.end());
        double second = v.size() > 1 ? v[1].first : std::numeric_limits<double>::max();
        if (v[0].first < r * r * second) o.push_back({i, v[0].second});
    }
    return o;
}
static void related(D& a, D& b)
{
    auto& g = sim::in(); size_t len = 4 + g.below(6), top = g.chance(1, 12) ? 90 : 14; a = descs(g.below(top), len); b = descs(g.below(top), len);
    for (auto& v : b) if (!a.empty() && g.chance(1, 2)) { v = a[g.below(a.size())]; v[g.below(len)] += (double)g.below(2); }
}
static double some_ratio() { auto& g = sim::in(); return g.chance(1, 12) ? 1.0 + 0.25 * (double)g.below(3) : 0.3 + 0.1 * (double)g.below(8); }
SCENARIO_W(raw_matches, 2)
{
    D a, b; related(a, b); double r = some_ratio();
    policies("raw matches", [&](auto&& p) { return find_raw_matches(p, a, b, r); }, [&] { return ratio(a, b, r); });
}
SCENARIO_W(keypoint_matches, 2)
{
    D a, b; related(a, b); double r = some_ratio();
    policies("keypoint matches", [&](auto&& p) { return find_keypoint_matches(p, a, b, r); }, [&] { return ratio(a, b, r); });
}
SCENARIO_W(robust_matches, 2)
{
    Mute m; D a, b; related(a, b); double r = some_ratio();
    policies("cross-checked matches", [&](auto&& p) { return find_robust_matches(p, a, b, r); }, [&] {
        M o, f = ratio(a, b, r), t = ratio(b, a, r);
        for (auto& x : f) for (auto& y : t) if (x.first == y.second && x.second == y.first) { o.push_back(x); break; }
        return o;
    });
}
