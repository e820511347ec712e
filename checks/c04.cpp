// C04: channel-wise application on asynchronous tasks.
#include "common.h"
#include <mutex>
#include <system_error>
using namespace h;

struct Boom : std::runtime_error { size_t ch; explicit Boom(size_t c) : std::runtime_error("channel failed"), ch(c) {} };
template <class P> static auto ch(const P& p, size_t c) { return p.channels[c]; }
// the planes of an image, computed without the library's plane extraction
template <class P> static auto planes(const Image<P>& im, size_t n)
{
    using E = std::remove_cvref_t<decltype(P{}.channels[0])>;
    std::vector<Image<E>> o; auto d = im.getImageData();
    for (size_t c = 0; c < n; ++c) { std::vector<E> v; for (size_t i = 0; i < d.size(); ++i) { P p = d[i]; v.push_back(p.channels[c]); } o.push_back(Image<E>(v, im.getSize())); }
    return o;
}
// An operation that records what it was called with, is preempted in the middle, and fails on chosen channels.
template <class E, class O> struct Probe {
    std::vector<Image<E>> want; std::vector<Image<E>> want2; std::vector<int> calls; std::mutex m; std::vector<char> fail; int k = 1; bool stray = false;
    Image<O> body(const Image<E>& a, const Image<E>* b, int kk)
    {
        size_t c = want.size();
        for (size_t i = 0; i < want.size(); ++i) if (eq(want[i], a) && (!b || eq(want2[i], *b))) { c = i; break; }
        { std::lock_guard l(m); if (c == want.size() || kk != k) stray = true; else ++calls[c]; }
        sim::yield();
        if (c < want.size() && fail[c]) throw Boom(c);
        auto d = a.getImageData(); std::vector<O> v(d.size()); for (size_t i = 0; i < d.size(); ++i) v[i] = (O)(d[i] * k + 1);
        if (b) { auto e = b->getImageData(); for (size_t i = 0; i < d.size(); ++i) v[i] = (O)(v[i] - e[i]); }
        sim::yield();
        return Image<O>(v, a.getSize());
    }
};
// call(probe): the library call. result(channels): how its result must look.
template <class P, class O, class Call> static void isolate(const char* w, size_t n, bool two, Call call)
{
    using E = std::remove_cvref_t<decltype(P{}.channels[0])>;
    auto& g = sim::in(); size_t W = dim(6, 12), H = dim(6, 12); auto x = image<P>(W, H), y = image<P>(W, H);
    // distinguishable channels
    for (size_t c = 0; c < n; ++c) { x.at_without_boundary_check(size_t(0), size_t(0)).channels[c] = (E)(c + 1); y.at_without_boundary_check(size_t(0), size_t(0)).channels[c] = (E)(c + 11); }
    auto kx = x, ky = y;
    Probe<E, O> p; p.want = planes(x, n); p.want2 = planes(y, n); p.calls.assign(n, 0); p.fail.assign(n, 0); p.k = (int)g.range(1, 3);
    bool faults = g.chance(1, 3); bool any = false;
    if (g.chance(1, 3)) for (auto& f : p.fail) { f = g.chance(1, 2); any |= f; }
    std::vector<Image<O>> ex;
    for (size_t c = 0; c < n; ++c) {
        auto d = p.want[c].getImageData(); auto e = p.want2[c].getImageData(); std::vector<O> v;
        for (size_t i = 0; i < d.size(); ++i) { O q = (O)(d[i] * p.k + 1); if (two) q = (O)(q - e[i]); v.push_back(q); }
        ex.push_back(Image<O>(v, W, H));
    }
    bool threw_boom = false, threw_sys = false, done = false; int64_t before = 0, after = 0;
    sim::cfg().thread_faults = faults;
    sim::run([&] {
        before = sim::live_blocks();
        try {
            auto r = call(p, x, y);
            done = true;
            auto rp = planes(r, n);
            for (size_t c = 0; c < n; ++c) expect(w, rp[c], ex[c]);
            dig(r);
        }
        catch (const Boom& b) { threw_boom = true; sim::check(b.ch < n && p.fail[b.ch], std::string(w) + ": an exception of a channel that did not fail"); }
        catch (const std::system_error& e) { threw_sys = true; }
        after = sim::live_blocks();
    });
    sim::check(!p.stray, std::string(w) + ": the operation was called with a plane or argument that is not of this image");
    for (size_t c = 0; c < n; ++c) sim::check(p.calls[c] <= 1, std::string(w) + ": the operation was called more than once for a channel");
    if (done) {
        sim::check(!any, std::string(w) + ": success although a channel failed");
        for (size_t c = 0; c < n; ++c) sim::check(p.calls[c] == 1, std::string(w) + ": success although a channel was never processed");
    } else {
        if (threw_boom) sim::check(any, std::string(w) + ": unexpected exception");
        if (threw_sys) sim::check(faults, std::string(w) + ": thread creation reported as failed although it did not fail");
    }
    sim::check(before == after, std::string(w) + ": memory leaked");
    expect("operand 1", x, kx); expect("operand 2", y, ky);
    sim::cover((uint64_t)(done * 1 + threw_boom * 2 + threw_sys * 4) * 64 + any * 32 + faults * 16 + n);
}
// an extra argument every channel needs whole: passed as an lvalue or as a temporary, taken by value
struct Arg { std::vector<int> v; int get() const { return v.size() == 2 ? v[1] : -99; } };
template <class P, class O> static void one(const char* w, size_t n)
{
    bool tmp = sim::in().chance(1, 2);
    isolate<P, O>(w, n, false, [tmp](auto& p, auto& x, auto&) {
        auto op = [&](auto&& pl, Arg k) { return p.body(pl, nullptr, k.get()); }; Arg a{{0, p.k}};
        if (tmp) return apply_each(x, op, std::move(a));
        auto r = apply_each(x, op, a); sim::check(a.get() == p.k, "channel-wise application changed its argument"); return r; });
}
template <class P, class O> static void two(const char* w, size_t n)
{
    bool tmp = sim::in().chance(1, 2);
    isolate<P, O>(w, n, true, [tmp](auto& p, auto& x, auto& y) {
        auto op = [&](auto&& q, auto&& r, Arg k) { return p.body(q, &r, k.get()); }; Arg a{{0, p.k}};
        if (tmp) return apply_each(x, y, op, std::move(a));
        auto r = apply_each(x, y, op, a); sim::check(a.get() == p.k, "channel-wise application changed its argument"); return r; });
}
// other numbers of channels take no extra arguments
template <class E, class O, size_t N> static void many() { isolate<MultiChannel<E, N>, O>("channel-wise application (N channels)", N, false, [](auto& p, auto& x, auto&) { return apply_each(x, [&](auto&& pl) { return p.body(pl, nullptr, p.k); }); }); }
SCENARIO(each_multi_n) { switch (sim::in().below(4)) { case 0: many<double, double, 1>(); break; case 1: many<int, int, 2>(); break; case 2: many<double, double, 4>(); break; default: many<int, double, 6>(); } }
// one value per channel
template <class P, size_t N> static void single(bool two_images)
{
    using E = std::remove_cvref_t<decltype(P{}.channels[0])>;
    auto& g = sim::in(); size_t W = dim(6, 12), H = dim(6, 12); auto x = image<P>(W, H), y = image<P>(W, H); auto kx = x, ky = y; auto px = planes(x, N), py = planes(y, N);
    std::vector<double> want; std::vector<int> calls(N, 0); size_t bad = g.chance(1, 3) ? g.below(N) : N; int k = (int)g.range(1, 9); bool tmp = g.chance(1, 2);
    auto value = [&](const Image<E>& a, const Image<E>* b) { auto d = a.getImageData(); double s = 0; for (size_t i = 0; i < d.size(); ++i) s = s * 3 + (double)d[i]; if (b) { auto e = b->getImageData(); for (size_t i = 0; i < e.size(); ++i) s -= (double)e[i] * (double)(i + 1); } return std::fmod(s, 1e6) + k; };
    for (size_t c = 0; c < N; ++c) want.push_back(value(px[c], two_images ? &py[c] : nullptr));
    size_t nth = 0; int64_t before = 0, after = 0; bool threw = false;
    sim::run([&] {
        before = sim::live_blocks();
        { try {
            auto body = [&](const Image<E>& a, const Image<E>* b, Arg q) { sim::check(q.get() == k, "one value per channel: an argument was lost"); if (nth++ == bad) throw Boom(bad); return value(a, b); };
            auto run = [&](auto&& arg) { if (two_images) return apply_each_single_output(N, x, y, [&](auto&& a, auto&& b, Arg q) { return body(a, &b, q); }, std::forward<decltype(arg)>(arg)); return apply_each_single_output(N, x, [&](auto&& a, Arg q) { return body(a, nullptr, q); }, std::forward<decltype(arg)>(arg)); };
            Arg q{{0, k}};
            std::vector<double> r = tmp ? run(std::move(q)) : run(q);
            expect("one value per channel", r, want); dig(r);
        } catch (const Boom&) { threw = true; } }
        after = sim::live_blocks();
    });
    sim::check(threw == (bad < N), "one value per channel: the failure of a channel was not reported");
    sim::check(before == after, "one value per channel: memory leaked"); expect("operand 1", x, kx); expect("operand 2", y, ky);
}
SCENARIO(single_output) { bool t = sim::in().chance(1, 2); switch (sim::in().below(5)) { case 0: single<RGB, 3>(t); break; case 1: single<RGB_DOUBLE, 3>(t); break; case 2: single<HSV, 3>(t); break; case 3: single<MultiChannel<int, 2>, 2>(t); break; default: single<MultiChannel<double, 5>, 5>(t); } }
// the library's own values per channel: minima, maxima, Manhattan distances
template <class P> static void extremes()
{
    auto x = image<P>(dim(6, 12), dim(6, 12)); auto y = image<P>(x.getWidth(), x.getHeight()); auto px = planes(x, 3), py = planes(y, 3);
    using E = std::remove_cvref_t<decltype(P{}.channels[0])>; std::vector<E> lo, hi;
    for (auto& p : px) { auto d = p.getImageData(); lo.push_back(*std::min_element(d.begin(), d.end())); hi.push_back(*std::max_element(d.begin(), d.end())); }
    sim::run([&] { std::vector<E> a = min(x), b = max(x); expect("minimum of each channel", a, lo); expect("maximum of each channel", b, hi); });
    (void)py;
}
SCENARIO(op_min_max) { if (sim::in().chance(1, 2)) extremes<RGB>(); else extremes<RGB_DOUBLE>(); }
SCENARIO_W(each_rgb, 2) { one<RGB, unsigned char>("channel-wise application (RGB)", 3); }
SCENARIO(each_rgb_to_double) { one<RGB, double>("channel-wise application (RGB to double)", 3); }
SCENARIO(each_rgb_to_multi) { one<RGB, int>("channel-wise application (RGB to multi-channel)", 3); }
SCENARIO_W(each_rgbd, 2) { one<RGB_DOUBLE, double>("channel-wise application (RGB_DOUBLE)", 3); }
SCENARIO(each_rgbd_to_multi) { one<RGB_DOUBLE, int>("channel-wise application (RGB_DOUBLE to multi-channel)", 3); }
SCENARIO_W(each_hsv, 2) { one<HSV, double>("channel-wise application (HSV)", 3); }
SCENARIO(each_hsv_to_multi) { one<HSV, int>("channel-wise application (HSV to multi-channel)", 3); }
SCENARIO(each_multi3) { one<MultiChannel<double, 3>, double>("channel-wise application (3 channels)", 3); }
SCENARIO_W(two_rgb, 2) { two<RGB, unsigned char>("channel-wise application to two images (RGB)", 3); }
SCENARIO(two_rgbd) { two<RGB_DOUBLE, double>("channel-wise application to two images (RGB_DOUBLE)", 3); }
SCENARIO(two_hsv) { two<HSV, double>("channel-wise application to two images (HSV)", 3); }
SCENARIO(two_multi3) { two<MultiChannel<double, 3>, double>("channel-wise application to two images (3 channels)", 3); }

// library operations built on it: the result is the operation applied to every channel on its own
template <class P, class Op> static void channelwise(const char* w, size_t W, size_t H, Op op)
{
    auto x = image<P>(W, H); auto keep = x; auto pl = planes(x, 3);
    auto a = op(pl[0]), b = op(pl[1]), c = op(pl[2]);
    bool faults = sim::in().chance(1, 4); sim::cfg().thread_faults = faults;
    sim::run([&] {
        try {
            auto r = op(x); auto rp = planes(r, 3);
            expect(w, rp[0], a); expect(w, rp[1], b); expect(w, rp[2], c); dig(r);
        } catch (const std::system_error&) { sim::check(faults, std::string(w) + ": spurious failure"); }
    });
    expect("operand", x, keep);
}
SCENARIO(op_conv2) { auto k = image<double>(1 + sim::in().below(3), 1 + sim::in().below(3)); bool s = sim::in().chance(1, 2); channelwise<RGB_DOUBLE>("channel-wise convolution", dim(6, 10), dim(6, 10), [=](auto& x) { return conv2(x, k, s); }); }
SCENARIO(op_dct2) { channelwise<RGB_DOUBLE>("channel-wise cosine transform", 1 + sim::in().below(5), 1 + sim::in().below(5), [](auto& x) { return dct2(x); }); }
SCENARIO(op_idct2) { channelwise<HSV>("channel-wise inverse cosine transform", 1 + sim::in().below(5), 1 + sim::in().below(5), [](auto& x) { return idct2(x); }); }
SCENARIO(op_pow) { int e = (int)sim::in().below(3); channelwise<RGB_DOUBLE>("channel-wise power", dim(), dim(), [e](auto& x) { return pow(x, (double)e); }); }
SCENARIO(op_multiplies) { double t = (double)sim::in().below(5); channelwise<RGB_DOUBLE>("channel-wise multiplication", dim(), dim(), [t](auto& x) { return multiplies(x, t); }); }
SCENARIO(op_fisheye) { double d0 = 2 + (double)sim::in().below(20); channelwise<RGB_DOUBLE>("channel-wise fisheye", 1 + sim::in().below(8), 1 + sim::in().below(8), [d0](auto& x) { return gaussian_fisheye(x, d0); }); }
SCENARIO(op_rotate) { double r = 0.05 * (double)sim::in().below(20); channelwise<RGB_DOUBLE>("channel-wise rotation", 2 + sim::in().below(6), 2 + sim::in().below(6), [r](auto& x) { return rotate(x, r); }); }
