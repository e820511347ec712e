// C15: elapsed times are real elapsed times, whatever happens to the wall clock.
#include "timer.h"
#include "common.h"
#include <ctime>
using namespace h;
namespace {
double mono() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
double wall() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
// elapsed times reported in a text, in order
std::vector<double> reported(const std::string& s) { std::vector<double> v; for (size_t p = 0; (p = s.find("elapsed time: ", p)) != std::string::npos; ++p) v.push_back(strtod(s.c_str() + p + 14, nullptr)); return v; }
void idle() { auto d = [](uint32_t n) { return sim::decide(sim::K_MISC, n); }; for (uint32_t i = 0, n = d(4); i < n; ++i) switch (d(3)) { case 0: { struct timespec t{(time_t)d(3), (long)d(999999999)}; nanosleep(&t, nullptr); break; } case 1: sim::yield(); break; default: (void)wall(); } }
struct Span { double a, b, c, d; };
void expect_span(double got, Span s, const char* what)
{
    double lo = s.c - s.b, hi = s.d - s.a, tol = 1e-5 * (1 + hi);   // printed with six digits
    if (!(got >= lo - tol && got <= hi + tol)) sim::violation(std::string(what) + " reported " + std::to_string(got) + " s for something that took " + std::to_string(lo) + " to " + std::to_string(hi) + " s");
}
}
SCENARIO_W(one_timer, 2)
{
    Capture m; sim::cfg().clock_faults = sim::in().chance(5, 6); Span s{};
    sim::run([&] { s.a = mono(); { Timer t; s.b = mono(); idle(); s.c = mono(); } s.d = mono(); });
    auto r = reported(m.a.str()); if (r.size() != 1) sim::violation("a timer reported " + std::to_string(r.size()) + " times");
    expect_span(r[0], s, "a timer"); sim::cover((uint64_t)(r[0] * 1000));
}
SCENARIO(nested_timers)
{
    Capture m; sim::cfg().clock_faults = true; Span s{}, i{};
    sim::run([&] { s.a = mono(); { Timer t; s.b = mono(); idle(); i.a = mono(); { Timer u; i.b = mono(); idle(); i.c = mono(); } i.d = mono(); idle(); s.c = mono(); } s.d = mono(); });
    auto r = reported(m.a.str()); if (r.size() != 2) sim::violation("two timers reported " + std::to_string(r.size()) + " times");
    expect_span(r[0], i, "an inner timer"); expect_span(r[1], s, "an outer timer");
}
SCENARIO(busy_machine)
{   // the machine does other work meanwhile
    Capture m; sim::cfg().clock_faults = true; Span s{};
    sim::run([&] { sim::clients({[&] { s.a = mono(); { Timer t; s.b = mono(); idle(); s.c = mono(); } s.d = mono(); }, [&] { for (int k = 0; k < 3; ++k) { (void)wall(); idle(); } }}); });
    auto r = reported(m.a.str()); if (r.size() != 1) sim::violation("a timer reported " + std::to_string(r.size()) + " times");
    expect_span(r[0], s, "a timer on a busy machine");
}
SCENARIO(timer_around_work)
{   // unwinding: the report is made when the work fails, too
    Capture m; sim::cfg().clock_faults = true; Span s{}; bool thrown = false;
    sim::run([&] { s.a = mono(); try { Timer t; s.b = mono(); idle(); s.c = mono(); throw std::runtime_error("work failed"); } catch (const std::runtime_error&) { thrown = true; } s.d = mono(); });
    auto r = reported(m.a.str()); if (!thrown || r.size() != 1) sim::violation("a timer around failing work reported " + std::to_string(r.size()) + " times");
    expect_span(r[0], s, "a timer around failing work");
}
