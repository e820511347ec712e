// C17: progress reports are one at a time, strictly increasing, never ahead of the work, and reach the end.
#include "common.h"
#include <atomic>
using namespace h;
namespace {
struct Reports {
    std::atomic<size_t> done{0}; std::atomic<int> inside{0}; std::vector<double> p; size_t n;
    explicit Reports(size_t total) : n(total) {}
    void operator()(double v)
    {
        if (inside.fetch_add(1) != 0) sim::violation("the progress callback was entered by two threads at once");
        sim::yield();
        if (!(v > 0 && v <= 1)) sim::violation("progress report outside (0, 1]: " + std::to_string(v));
        if (!p.empty() && v <= p.back()) sim::violation("progress went from " + std::to_string(p.back()) + " to " + std::to_string(v));
        if ((double)done.load() + 1e-6 < v * (double)n) sim::violation("progress report " + std::to_string(v) + " with only " + std::to_string(done.load()) + " of " + std::to_string(n) + " pixels done");
        p.push_back(v);
        inside.fetch_sub(1);
    }
    void finish() const
    {
        if (p.empty()) sim::violation("no progress was ever reported");
        double step = (double)std::max<size_t>(1, n / 100) / (double)n;
        if (p.back() <= 1 - step - 1e-9) sim::violation("the last progress report was " + std::to_string(p.back()));
        sim::cover((uint64_t)n * 1000 + p.size());
    }
};
void filter(size_t w, size_t hh)
{
    auto& g = sim::in(); auto im = image<double>(w, hh); std::vector<size_t> win = {1 + g.below(3), 1 + g.below(3)}; Reports r(w * hh); auto b = boundary();
    auto f = [&](const Image<double>& x) { double s = 0; for (auto v : x.getImageData()) s += v; r.done.fetch_add(1); return s / (double)x.count(); };
    auto ref = windowed_filter(std::execution::seq, im, win, f, b, 0.0); r.done = 0;
    sim::run([&] { auto got = parallel([&](auto&& p) { return windowed_filter(p, im, win, f, b, 0.0, [&](double v) { r(v); }); }); expect("window filter with progress reports", got, ref); });
    if (r.done != w * hh) sim::violation("the filter ran " + std::to_string(r.done.load()) + " times for " + std::to_string(w * hh) + " pixels");
    r.finish();
}
} // namespace
SCENARIO_W(small, 4) { auto& g = sim::in(); filter(4 + g.below(4), 4 + g.below(4)); }
SCENARIO(larger) { auto& g = sim::in(); filter(14 + g.below(8), 14 + g.below(8)); }
SCENARIO(large) { auto& g = sim::in(); if (g.chance(1, 8)) filter(30 + g.below(40), 30 + g.below(40)); else filter(7 + g.below(6), 7 + g.below(6)); }
SCENARIO_W(bilateral, 2)
{
    auto& g = sim::in(); size_t w = 4 + g.below(3), hh = 4 + g.below(3); auto im = image<double>(w, hh); std::vector<size_t> win = {1 + g.below(2), 1 + g.below(2)}; std::vector<double> p; std::atomic<int> inside{0};
    auto k = [](double x) { return 1 / (1 + x * x); };
    auto ref = bilateral_filter(std::execution::seq, im, win, k, k);
    sim::run([&] { auto got = parallel([&](auto&& pol) { return bilateral_filter(pol, im, win, k, k, BoundaryCondition::mirror, [&](double v) {
        if (inside.fetch_add(1) != 0) sim::violation("the progress callback was entered by two threads at once"); sim::yield();
        if (!(v > 0 && v <= 1) || (!p.empty() && v <= p.back())) sim::violation("bilateral filter reported progress " + std::to_string(v) + " out of order"); p.push_back(v); inside.fetch_sub(1); }); });
        if (!near(got, ref)) sim::violation("bilateral filter with progress reports differs"); });
    if (p.empty() || p.back() != 1) sim::violation("the bilateral filter's last progress report was not completion");
}
SCENARIO(sequential)
{   // one thread: a report per hundredth, the first pixel is reported at once
    auto& g = sim::in(); size_t w = 4 + g.below(5), hh = 4 + g.below(5); auto im = image<double>(w, hh); std::vector<size_t> win = {2, 2}; Reports r(w * hh);
    sim::run([&] { windowed_filter(std::execution::seq, im, win, [&](const Image<double>& x) { r.done.fetch_add(1); return (double)x.count(); }, BoundaryCondition::replicate, 0.0, [&](double v) { r(v); }); });
    r.finish();
}
