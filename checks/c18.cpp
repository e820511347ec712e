// C18: an image operation that runs out of memory tells its caller and damages nothing.
#include "c16_ops.h"
using namespace ops;
namespace ops { std::vector<Op>& registry() { static std::vector<Op> v; return v; } }
SCENARIO_W(operations, 40)
{
    auto& g = sim::in(); auto l = registry(); std::sort(l.begin(), l.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; }); 
    std::erase_if(l, [](auto& x) { return std::string(x.name) == "windowed_filter" || std::string(x.name) == "bilateral_filter" || std::string(x.name) == "print" || std::string(x.name) == "listing" || std::string(x.name).ends_with("_matches"); });   // a stream keeps the failure to itself; work under an execution policy: the standard terminates
    auto& o = l[g.below(l.size())]; In i(4 + g.below(6), 4 + g.below(6));
    Mute mu; uint64_t before = i.sum(), want = o.f(i), got = 0; uint32_t nth = 1 + (uint32_t)g.below(g.chance(1, 2) ? 12 : 80); bool sticky = g.chance(1, 3), failed = false, leak = false, fired = false;
    sim::run([&] {
        int64_t live = sim::live_blocks();
        try { sim::AllocGuard ag(nth, sticky); got = o.f(i); } catch (const std::bad_alloc&) { failed = true; }
        fired = sim::alloc_fault_fired(); leak = sim::live_blocks() != live;
    });
    std::string n = o.name;
    if (failed && leak) sim::violation(n + " leaked memory when it ran out of memory");
    if (i.sum() != before) sim::violation(n + " damaged its operand when it ran out of memory");
    if (failed && !fired) sim::violation(n + " reported lack of memory without reason");
    if (!failed && got != want) sim::violation(n + " returned a wrong result after an allocation failed");
    if (o.f(i) != want) sim::violation(n + " gives another result after it ran out of memory before");
    Hash c; c.bytes(n.data(), n.size()); sim::cover(c.v + (failed ? nth : 0));
}

namespace {
template <class T> bool sound(const Image<T>& a) { size_t n = 1; for (auto s : a.getSize()) n *= s; if (a.getSize().empty()) n = 0; return a.getImageData().size() == n; }
// act() under a failing allocation; target is a before the call, b after a successful one and must be sound, a or b afterwards
template <class T, class F> void all_or_nothing(const char* what, Image<T> target, const Image<T>& done, F act)
{
    auto& g = sim::in(); uint32_t nth = 1 + (uint32_t)g.below(6); bool sticky = g.chance(1, 3), failed = false, leak = false, fired = false; auto before = target; std::string n = what;
    sim::run([&] {
        int64_t live = sim::live_blocks();
        try { sim::AllocGuard ag(nth, sticky); act(target); } catch (const std::bad_alloc&) { failed = true; }
        fired = sim::alloc_fault_fired(); leak = failed && sim::live_blocks() != live;
    });
    if (!sound(target)) sim::violation(n + " ran out of memory and left an image whose size does not fit its pixels");
    if (failed && !eq(target, before)) sim::violation(n + " ran out of memory and changed the image");
    if (!failed && !eq(target, done)) sim::violation(n + " did not give the image it should");
    if (leak) sim::violation(n + " leaked memory when it ran out of memory");
    if (failed && !fired) sim::violation(n + " reported lack of memory without reason");
    sim::cover(failed ? nth : 0);
}
template <class T> void assignments()
{
    auto& g = sim::in(); auto a = g.chance(1, 8) ? Image<T>() : image<T>(dim(6), dim(6)), b = g.chance(1, 8) ? Image<T>() : image<T>(dim(6), dim(6)); if (g.chance(1, 4)) { std::vector<T> v(12); for (auto& x : v) x = val<T>(); b = Image<T>(v, std::vector<size_t>{2, 3, 2}); }
    switch (g.below(3)) {
    case 0: all_or_nothing("copying an image", a, b, [&](auto& t) { t = b; }); break;
    case 1: all_or_nothing("copying an image into itself", a, a, [&](auto& t) { auto& u = t; t = u; }); break;
    default: { auto c = b; all_or_nothing("moving an image", a, b, [&](auto& t) { t = std::move(c); }); if (!sound(c)) sim::violation("a moved-from image has a size that does not fit its pixels"); }
    }
}
} // namespace
SCENARIO_W(assignment_double, 10) { assignments<double>(); }
SCENARIO_W(assignment_rgb, 10) { assignments<RGB>(); }
SCENARIO_W(compound_assignment, 10)
{
    size_t w = dim(6), hh = dim(6); auto a = image<double>(w, hh), b = image<double>(w, hh); for (auto& x : b.getImageData()) x += 1;
    auto r = a; auto& d = r.getImageData(); int k = (int)sim::in().below(4); for (size_t i = 0; i < d.size(); ++i) { double y = b.getImageData()[i]; d[i] = k == 0 ? d[i] + y : k == 1 ? d[i] - y : k == 2 ? d[i] * y : d[i] / y; }
    all_or_nothing("compound assignment", a, r, [&](auto& t) { k == 0 ? t += b : k == 1 ? t -= b : k == 2 ? t *= b : t /= b; });
}
SCENARIO_W(containers_of_images, 10)
{   // a container of images that cannot grow keeps the images it has
    auto& g = sim::in(); std::vector<Image<double>> v, keep; for (size_t i = 0, n = g.below(5); i < n; ++i) v.push_back(image<double>(dim(4), dim(4))); keep = v; auto x = image<double>(dim(4), dim(4)); uint32_t nth = 1 + (uint32_t)g.below(4); bool failed = false, leak = false;
    sim::run([&] { int64_t live = sim::live_blocks(); try { sim::AllocGuard ag(nth); v.push_back(x); } catch (const std::bad_alloc&) { failed = true; } leak = failed && sim::live_blocks() != live; });
    if (!failed) keep.push_back(x);
    if (!eq(v, keep)) sim::violation("a list of images was damaged when it could not grow");
    if (leak) sim::violation("a list of images leaked when it could not grow");
}
SCENARIO(keypoints)
{
    Mute mu; auto& g = sim::in(); size_t w = 20 + g.below(3), hh = 20 + g.below(3); auto im = image<double>(w, hh); bool par = g.chance(1, 2);
    auto op = [&] { return par ? SIFT_impl::get_potential_keypoint(std::execution::par, im, 1, 4, 0.7, 1.3, 2.0, 12.1) : SIFT_impl::get_potential_keypoint(std::execution::seq, im, 1, 4, 0.7, 1.3, 2.0, 12.1); };
    auto want = op(), got = want; auto keep = im; uint32_t nth = 1 + (uint32_t)g.below(g.chance(1, 2) ? 100 : 4000); bool failed = false, leak = false, fired = false, sticky = g.chance(1, 3);
    sim::run([&] {
        int64_t live = sim::live_blocks(); bool threw = false;
        { decltype(want) r; try { sim::AllocGuard ag(nth, sticky); r = op(); } catch (const std::bad_alloc&) { threw = true; } fired = sim::alloc_fault_fired(); if (!threw) got = r; }
        failed = threw; leak = failed && sim::live_blocks() != live;
    });
    if (leak) sim::violation("the search for keypoints leaked memory when it ran out of memory");
    if (failed && !fired) sim::violation("the search for keypoints reported lack of memory without reason");
    if (!eq(im, keep)) sim::violation("the search for keypoints damaged its operand when it ran out of memory");
    if (!eq(got, want)) sim::violation("the search for keypoints returned a wrong result after an allocation failed");
    if (!eq(op(), want)) sim::violation("the search for keypoints gives another result after it ran out of memory before");
    sim::cover(failed ? nth : 0);
}
