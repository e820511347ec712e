// C03 (nested ranges): parallel reductions combine every element exactly once.
#include "common.h"
#include "linear_algebra.h"
using namespace h;

using V2 = std::vector<std::vector<int>>;
static V2 nested(int lo = -9, int hi = 9)
{
    auto& g = sim::in(); V2 v(1 + g.below(6));
    for (auto& r : v) { r.resize(g.below(9)); for (auto& x : r) x = (int)g.range(lo, hi); }
    if (g.chance(1, 50)) { v.emplace_back(1500 + g.below(2000)); for (auto& x : v.back()) x = (int)g.range(lo, hi); }
    if (g.chance(1, 4)) v.push_back(std::vector<int>(20 + g.below(30), 3));
    return v;
}
static std::vector<int> flat(const V2& v) { std::vector<int> o; for (auto& r : v) for (auto x : r) o.push_back(x); return o; }
SCENARIO(count_if_nested)
{
    auto v = nested(); auto f = flat(v); int k = (int)sim::in().range(-9, 9);
    policies("conditional count over a nested range", [&](auto&& p) { return (size_t)recursive_count_if(p, v, [k](const int& x) { return x < k; }); }, [&] { return (size_t)std::count_if(f.begin(), f.end(), [k](int x) { return x < k; }); });
}
SCENARIO(find_nested)
{
    auto v = nested(); auto f = flat(v); int k = (int)sim::in().range(-12, 12);
    policies("search in a nested range", [&](auto&& p) { return (bool)recursive_find<2>(p, v, k); }, [&] { return std::find(f.begin(), f.end(), k) != f.end(); });
}
SCENARIO(for_each_nested)
{
    V2 v = nested(0, 9); std::array<long, 10> want{}; for (auto& r : v) for (auto x : r) ++want[x];
    std::array<std::atomic<long>, 10> seen{};
    sim::run([&] {
        parallel([&](auto&& p) { recursive_for_each<2>(p, [&](const int& x) { seen[x].fetch_add(1); }, v); return 0; });
        for (int i = 0; i < 10; ++i) sim::check(seen[i].load() == want[i], "wrong result: application over a nested range did not visit every element exactly once");
    });
}
SCENARIO(transform_reduce_nested)
{
    auto v = nested(); auto f = flat(v); int init = (int)sim::in().range(-5, 5);
    policies("mapped sum over a nested range", [&](auto&& p) { return recursive_transform_reduce(p, v, init, [](const int& x) { return x * x + 1; }, std::plus<int>()); }, [&] { int s = init; for (auto x : f) s += x * x + 1; return s; });
}
SCENARIO(transform_reduce_level)
{
    auto v = nested(); auto f = flat(v); int init = (int)sim::in().range(-5, 5);
    policies("mapped sum with a given depth", [&](auto&& p) { return recursive_transform_reduce<2>(p, v, init, [](const int& x) { return x * 2 - 1; }, std::plus<int>()); }, [&] { int s = init; for (auto x : f) s += x * 2 - 1; return s; });
}
SCENARIO(two_input)
{
    auto& g = sim::in(); size_t n = dim(40, 200); std::vector<int> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = (int)g.range(-99, 99); b[i] = (int)g.range(-99, 99); }
    int init = (int)g.range(-3, 3);
    policies("reduction of two sequences", [&](auto&& p) { return two_input_map_reduce(p, a, b, init, [](int x, int y) { return x * y; }, std::plus<int>()); }, [&] { int s = init; for (size_t i = 0; i < n; ++i) s += a[i] * b[i]; return s; });
}
static std::vector<double> reals(size_t n) 
{
    auto& g = sim::in(); std::vector<double> v(n); int64_t r = g.chance(1, 2) ? 64 : 1000003;   // the large ones: sums of squares beyond 24 bits, still exact in double
    for (auto& x : v) x = (double)g.range(-r, r);
    return v;
}
SCENARIO(variance)
{
    auto v = reals(1u << sim::in().below(7));     // power-of-two length: the mean and all squares are exact
    double m = 0; for (auto x : v) m += x; m /= (double)v.size(); double s = 0; for (auto x : v) s += (x - m) * (x - m); s /= (double)v.size();
    policies_near("population variance", [&](auto&& p) { return (double)population_variance(p, v); }, 1e-12);
    policies_near("population standard deviation", [&](auto&& p) { return (double)population_standard_deviation(p, v); }, 1e-12);
    sim::run([&] { double got = population_variance(v); sim::check(close(got, s, 1e-12), "wrong result: population variance (default policy)"); });
}
SCENARIO(squares)
{
    auto v = reals(dim(40, 200)); double s = 0; for (auto x : v) s += x * x;
    policies("sum of squares", [&](auto&& p) { return (double)square_sum(p, v); }, [&] { return s; });
    policies_near("root mean square", [&](auto&& p) { return (double)root_mean_square(p, v); }, 1e-12);
}
SCENARIO(range_distance)
{
    auto& g = sim::in(); size_t n = dim(40, 200); std::vector<double> a = reals(n), b = reals(n); double s = 0; for (size_t i = 0; i < n; ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
    policies("squared Euclidean distance of ranges", [&](auto&& p) { return (double)squared_euclidean_distance()(p, a, b); }, [&] { return s; });
    bool threw = false;
    b.push_back(1);
    sim::run([&] { try { (void)squared_euclidean_distance()(std::execution::par, a, b); } catch (const std::runtime_error&) { threw = true; } });
    sim::check(threw, "distance of ranges of different length was not rejected");
    (void)g;
}
SCENARIO(array_distance)
{
    auto& g = sim::in(); std::array<int, 37> a, b; double s = 0; for (size_t i = 0; i < 37; ++i) { a[i] = (int)g.range(-99, 99); b[i] = (int)g.range(-99, 99); s += (double)(a[i] - b[i]) * (a[i] - b[i]); }
    policies("Euclidean distance of arrays", [&](auto&& p) { return (double)euclidean_distance(p, a, b); }, [&] { return std::sqrt(s); });
}
SCENARIO(pair_sums)
{
    auto& g = sim::in(); std::vector<std::pair<int, long>> v(g.below(60)); int a = 0; long b = 0; for (auto& x : v) { x = {(int)g.range(-99, 99), (long)g.range(-99, 99)}; a += x.first; b += x.second; }
    policies("sum of the first elements", [&](auto&& p) { return sum_first_element(p, v); }, [&] { return a; });
    policies("sum of the second elements", [&](auto&& p) { return sum_second_element(p, v); }, [&] { return b; });
    std::vector<std::tuple<int, int, long>> t; long c = 7; for (auto& x : v) { t.push_back({x.first, 1, x.second}); c += x.second; }
    policies("sum of the n-th elements", [&](auto&& p) { return (long)sum_n_th_element<2>(p, t, 7L); }, [&] { return c; });
}
// one asymmetric pair anywhere is found by every policy; the tolerance for real numbers is respected
template <class T> static void symmetry()
{
    auto& g = sim::in(); size_t n = 1 + g.below(g.chance(1, 10) ? 40 : 9), m = g.chance(1, 12) ? n + 1 : n; linalg::Matrix<T> a(n, m); bool want = n == m;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) a.at(i, j) = (T)(j < i && j < n && i < m ? a.at(j, i) : (T)g.range(-50, 50));
    if (want && n > 1 && g.chance(2, 3)) { size_t i = g.below(n), j = g.below(n); if (i != j) { bool tiny = std::is_floating_point_v<T> && g.chance(1, 3); a.at(i, j) = (T)(a.at(i, j) + (tiny ? 1e-8 : 1)); want = tiny; } }
    policies("symmetry of a matrix", [&](auto&& p) { return (bool)linalg::is_symmetry(p, a); }, [&] { return want; });
}
SCENARIO(symmetry_int) { symmetry<int>(); }
SCENARIO(symmetry_double) { symmetry<double>(); }
