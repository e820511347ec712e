// C06: randomised operations are a function of the caller's generator only.
#include "c16_ops.h"
#include <random>
using namespace h;

// other random operations with other arguments, which must leave no trace
static void unrelated(unsigned k)
{
    std::mt19937 g(k); size_t w = 1 + k % 5, hh = 1 + k % 3; int lo = (int)(k % 37) - 20;
    auto keep = [](const auto& im) { sim::check(im.count() > 0, "an empty random image"); };
    switch (k % 4) {
    case 0: keep(rand<double>(g, w, hh)); break;
    case 1: keep(randi<int>(g, std::pair<int, int>{lo, lo + (int)(k % 11)}, w, hh)); break;
    case 2: keep(rand<double>(w, hh)); keep(randi<int>(std::pair<int, int>{lo, lo + (int)(k % 11)}, hh, w)); break;
    default: { std::vector<Point<2>> p(5), q(5); std::vector<std::pair<size_t, size_t>> m; for (size_t i = 0; i < 5; ++i) { p[i].p[0] = i * k % 17; p[i].p[1] = i * i; q[i].p[0] = p[i].p[0] + 2; q[i].p[1] = i * i + k % 3; m.push_back({i, i}); } find_homography_robust<double>(p, q, m, g, k % 8 < 4 ? RobustEstimatorMethod::RANSAC : RobustEstimatorMethod::MSAC, 3, 1.0); }
    }
}
// op(rng): expected result and final generator state from a process that does nothing else; the simulated run sees other clocks,
// entropy, schedules and an earlier history.
template <class R, class Op> static void reproducible(const char* w, R seedrng, Op op)
{
    auto text = [](const R& r) { std::ostringstream o; o << r; return o.str(); };
    auto result = [&](bool sim) { R a = seedrng; auto r = op(a, sim); return ops::hash(std::make_pair(r, text(a))); };
    uint64_t want = fresh(w, [&] { return result(false); }); std::vector<unsigned> before; for (size_t i = 0, n = sim::in().below(3); i < n; ++i) before.push_back((unsigned)sim::in().below(1000));
    sim::cfg().clock_faults = true;
    sim::run([&] {
        for (unsigned k : before) unrelated(k);
        R b = seedrng; auto got = op(b, true); dig(got);
        if (ops::hash(std::make_pair(got, text(b))) != want) sim::violation(std::string(w) + ": the result or the state of the caller's generator afterwards depends on something else than the arguments and the generator");
    });
}
template <class R> static R gen() { return R((unsigned)sim::in().below(1u << 30)); }
SCENARIO_W(rand_real, 4)
{
    size_t W = dim(), H = dim(); auto r = gen<std::mt19937>(); auto m = r; std::uniform_real_distribution<double> d; std::vector<double> v(W * H); for (auto& x : v) x = d(m);
    auto want = Image<double>(v, W, H);
    reproducible("uniform random image", r, [&](auto& g, bool) { auto im = rand<double>(g, W, H); expect("uniform random image against its definition", im, want); for (auto x : im.getImageData()) sim::check(x >= 0 && x < 1, "random pixel outside [0,1)"); return im; });
}
SCENARIO_W(rand_integer, 4)
{
    auto& in = sim::in(); size_t W = dim(), H = dim(); int lo = (int)in.range(-50, 50), hi = lo + (int)in.below(100); auto r = gen<std::minstd_rand>(); auto m = r; std::uniform_int_distribution<int> d(lo, hi); std::vector<int> v(W * H); for (auto& x : v) x = d(m);
    auto want = Image<int>(v, W, H);
    reproducible("random integer image", r, [&](auto& g, bool) { auto im = randi<int>(g, std::pair<int, int>{lo, hi}, W, H); expect("random integer image against its definition", im, want); for (auto x : im.getImageData()) sim::check(x >= lo && x <= hi, "random integer outside its range"); return im; });
}
// the short forms: one pixel, an upper bound only
SCENARIO_W(rand_short_forms, 3)
{
    auto& in = sim::in(); int hi = 1 + (int)in.below(in.chance(1, 2) ? 4 : 300); auto r = gen<std::mt19937>();
    reproducible("random images of the short forms", r, [&](auto& g, bool) {
        std::vector<double> o; auto a = randi<int>(g, hi); auto b = rand<double>(g); auto c = randi<unsigned short>(g, std::pair<unsigned short, unsigned short>{(unsigned short)3, (unsigned short)(3 + hi)}); auto d = randi<int>(g, std::pair<int, int>{-hi, hi}, size_t(3), size_t(2), size_t(2)); auto e = rand<float>(g, size_t(5));
        sim::check(a.count() == 1 && b.count() == 1 && c.count() == 1 && d.count() == 12 && e.count() == 5, "size of a random image");
        for (auto x : a.getImageData()) { sim::check(x >= 1 && x <= hi, "random integer outside its range"); o.push_back(x); }
        for (auto x : b.getImageData()) { sim::check(x >= 0 && x < 1, "random pixel outside [0,1)"); o.push_back(x); }
        for (auto x : c.getImageData()) { sim::check(x >= 3 && x <= 3 + hi, "random integer outside its range"); o.push_back(x); }
        for (auto x : d.getImageData()) { sim::check(x >= -hi && x <= hi, "random integer outside its range"); o.push_back(x); }
        for (auto x : e.getImageData()) { sim::check(x >= 0 && x <= 1, "random pixel outside [0,1)"); o.push_back(x); }
        return o; });
}
SCENARIO_W(rand_3d, 4)
{
    auto& in = sim::in(); size_t a = 1 + in.below(5), b = 1 + in.below(5), c = 1 + in.below(5); auto r = gen<std::mt19937_64>();
    reproducible("random 3-D image", r, [&](auto& g, bool) { return rand<double>(g, a, b, c); });
}
SCENARIO_W(clients_with_own_generators, 4)
{
    size_t n = 2 + sim::in().below(3), W = dim(8), H = dim(8); unsigned s = (unsigned)sim::in().below(1000);
    std::vector<Image<double>> want; std::vector<std::mt19937> fin; for (size_t i = 0; i < n; ++i) { std::mt19937 g(s + i); want.push_back(rand<double>(g, W, H)); fin.push_back(g); }
    std::vector<Image<double>> got(n); std::vector<std::mt19937> st(n);
    sim::run([&] {
        std::vector<std::function<void()>> cl; for (size_t i = 0; i < n; ++i) cl.push_back([&, i] { std::mt19937 g(s + i); got[i] = rand<double>(g, W, H); st[i] = g; });
        sim::clients(cl);
    });
    for (size_t i = 0; i < n; ++i) { expect("random image of a concurrent client", got[i], want[i]); sim::check(st[i] == fin[i], "generator of a concurrent client"); }
}
// several clients, each with a generator of its own and a sequence of calls with changing ranges and sizes
SCENARIO_W(client_histories, 4)
{
    auto& in = sim::in(); struct Call { int kind, lo, hi; size_t w, hh; }; size_t n = 1 + in.below(3); std::vector<std::vector<Call>> plan(n); std::vector<unsigned> seed(n);
    for (auto& p : plan) for (size_t i = 0, k = 2 + in.below(4); i < k; ++i) { int lo = (int)in.range(-300, 300); p.push_back({(int)in.below(3), lo, lo + (int)(in.chance(1, 4) ? 0 : in.below(500)), dim(6, 20), dim(6, 20)}); }
    for (auto& s : seed) s = (unsigned)in.below(1u << 20);
    std::vector<std::string> wrong(n);
    sim::run([&] {
        std::vector<std::function<void()>> cl; for (size_t c = 0; c < n; ++c) cl.push_back([&, c] {
            std::mt19937 g(seed[c]), m(seed[c]);
            for (auto& k : plan[c]) {
                if (k.kind == 0) { auto r = rand<double>(g, k.w, k.hh); std::uniform_real_distribution<double> d; for (auto x : r.getImageData()) if (x != d(m)) wrong[c] = "a uniform random image"; }
                else if (k.kind == 1) { auto r = randi<int>(g, std::pair<int, int>{k.lo, k.hi}, k.w, k.hh); std::uniform_int_distribution<int> d(k.lo, k.hi); for (auto x : r.getImageData()) if (x != d(m) || x < k.lo || x > k.hi) wrong[c] = "a random integer image"; }
                else { auto r = rand<float>(g, k.w, k.hh); std::uniform_real_distribution<float> d; for (auto x : r.getImageData()) if (x != d(m)) wrong[c] = "a uniform random image (float)"; }
                if (!(g == m)) wrong[c] = "the generator";
            }
        });
        if (n == 1) cl[0](); else sim::clients(cl);
    });
    for (auto& w : wrong) if (!w.empty()) sim::violation(w + " of a client with its own generator is not what its calls give");
}
SCENARIO_W(entropy_seeded, 4)
{
    // without a generator: entropy comes from the system; values stay in range and clients do not disturb each other
    size_t W = dim(8), H = dim(8); int hi = 1 + (int)sim::in().below(9); std::vector<Image<double>> a(2); std::vector<Image<int>> b(2);
    sim::run([&] { sim::clients({[&] { a[0] = rand<double>(W, H); b[0] = randi<int>(std::pair<int, int>{1, hi}, W, H); auto one = randi<int>(hi); for (auto x : one.getImageData()) sim::check(x >= 1 && x <= hi, "random integer outside its range"); }, [&] { b[1] = randi<int>(hi, W, H); a[1] = rand<double>(W, H); auto one = rand<double>(); for (auto x : one.getImageData()) sim::check(x >= 0 && x < 1, "random pixel outside [0,1)"); }}); });
    for (auto& i : a) { sim::check(i.count() == W * H, "size of a random image"); for (auto x : i.getImageData()) sim::check(x >= 0 && x < 1, "random pixel outside [0,1)"); }
    for (auto& i : b) { sim::check(i.count() == W * H, "size of a random image"); for (auto x : i.getImageData()) sim::check(x >= 1 && x <= hi, "random integer outside its range"); }
}
static std::vector<double> flat(const linalg::Matrix<double>& m) { std::vector<double> v; v.push_back((double)m.rows()); v.push_back((double)m.cols()); for (size_t i = 0; i < m.rows(); ++i) for (size_t j = 0; j < m.cols(); ++j) v.push_back(m.at(i, j)); return v; }
SCENARIO_W(robust_homography, 4)
{
    Mute mu; auto& in = sim::in(); size_t n = 4 + in.below(10); std::vector<Point<2>> p(n), q(n); std::vector<std::pair<size_t, size_t>> m;
    for (size_t i = 0; i < n; ++i) { p[i].p[0] = in.below(60); p[i].p[1] = in.below(60); q[i].p[0] = p[i].p[0] + 5 + (in.chance(1, 4) ? in.below(20) : 0); q[i].p[1] = p[i].p[1] + 3; m.push_back({i, i}); }
    auto meth = in.chance(1, 2) ? RobustEstimatorMethod::RANSAC : RobustEstimatorMethod::MSAC; int it = (int)in.below(12);
    reproducible("robust homography", gen<std::mt19937>(), [&](auto& g, bool) { return flat(find_homography_robust<double>(p, q, m, g, meth, it, 2.0)); });
}
SCENARIO_W(robust_homography_clients, 2)
{
    Mute mu; auto& in = sim::in(); size_t nc = 2 + in.below(2); struct C { std::vector<Point<2>> p, q; std::vector<std::pair<size_t, size_t>> m; unsigned seed; RobustEstimatorMethod meth; int it; double thr; }; std::vector<C> cs(nc);
    for (auto& c : cs) { size_t n = 4 + in.below(6); c.p.resize(n); c.q.resize(n); for (size_t i = 0; i < n; ++i) { c.p[i].p[0] = in.below(60); c.p[i].p[1] = in.below(60); c.q[i].p[0] = c.p[i].p[0] + 5 + (in.chance(1, 4) ? in.below(20) : 0); c.q[i].p[1] = c.p[i].p[1] + 3; c.m.push_back({i, i}); } c.seed = (unsigned)in.below(1u << 20); c.meth = in.chance(1, 2) ? RobustEstimatorMethod::RANSAC : RobustEstimatorMethod::MSAC; c.it = 1 + (int)in.below(8); c.thr = 0.5 * (double)(1 + in.below(6)); }
    auto go = [](const C& c) { std::mt19937 g(c.seed); auto r = flat(find_homography_robust<double>(c.p, c.q, c.m, g, c.meth, c.it, c.thr)); r.push_back((double)g()); return ops::hash(r); };
    std::vector<uint64_t> want, got(nc); for (auto& c : cs) want.push_back(fresh("robust homography", [&] { return go(c); }));
    sim::run([&] { std::vector<std::function<void()>> cl; for (size_t i = 0; i < nc; ++i) cl.push_back([&, i] { got[i] = go(cs[i]); }); sim::clients(cl); });
    if (got != want) sim::violation("robust homography: clients with generators of their own influence each other");
}
SCENARIO(stitch_homography)
{
    Mute mu; auto& in = sim::in(); size_t W = 22 + in.below(4), H = 22 + in.below(4); std::vector<RGB> v(W * H);
    for (auto& x : v) for (auto& c : x.channels) c = 100;
    for (int i = 0; i < 14; ++i) { size_t cx = in.below(W - 2), cy = in.below(H - 2); unsigned char d = (unsigned char)in.below(256); for (size_t y = cy; y < cy + 2; ++y) for (size_t x = cx; x < cx + 2; ++x) for (auto& c : v[y * W + x].channels) c = d; }
    Image<RGB> a(v, W, H); auto w = v; for (size_t y = 0; y < H; ++y) for (size_t x = 0; x < W; ++x) w[y * W + x] = v[y * W + std::min(W - 1, x + 1)]; Image<RGB> b(w, W, H);
    SiftParams<double> sp; sp.octaves_count = 1; sp.number_of_scale_levels = 4; sp.initial_sigma = 0.7; sp.k = 1.3; sp.contrast_check_threshold = 0.5;
    reproducible("homography between two images", gen<std::mt19937>(), [&](auto& g, bool par) { return flat(par ? find_stitch_homography(std::execution::par, a, b, g, RobustEstimatorMethod::MSAC, sp, 0.9, 8, 2.0) : find_stitch_homography(std::execution::seq, a, b, g, RobustEstimatorMethod::MSAC, sp, 0.9, 8, 2.0)); });
}
