// C14: an interactive session or a command line run does what its commands say, whatever fails in between.
#include "session.h"

SCENARIO_W(session_without_faults, 3)
{
    auto& g = sim::in(); Model m = start(); std::vector<Line> l; for (size_t i = 0, n = 3 + g.below(14); i < n; ++i) { if (g.chance(1, 9)) for (auto& x : recipe()) l.push_back(x); l.push_back(g.chance(1, 6) ? again(l) : line()); }
    sim::fs().soft = g.chance(1, 2); session(m, l, g.chance(1, 2));
}
SCENARIO_W(session_with_faults, 5)
{
    auto& g = sim::in(); Model m = start(); std::vector<Line> l;
    for (size_t i = 0, n = 3 + g.below(14); i < n; ++i) {
        Line x = line(); bool pol_ = false, multi = x.s.size() > 1, ws = false; for (auto& s : x.s) { for (auto& a : s.a) pol_ = pol_ || policy(a); ws = ws || s.c == "save_workspace" || s.c == "load_workspace" || s.c == "remove"; if (s.c == "multiply" || s.c == "no_such_command") multi = true; }   // memory runs out inside a command, not while a line is parsed or optimised
        for (auto& s : x.s) if (x.s.size() > 1 && io(s.c) == std::pair{-1, -1}) ws = true;
        if (!ws && g.chance(1, 2)) { if (!pol_ && !multi && g.chance(1, 2)) { x.fault = 1; x.nth = 1 + (uint32_t)g.below(g.chance(1, 2) ? 6 : 40); x.sticky = g.chance(1, 3); } else { x.fault = 2; x.rate = 100 + (uint32_t)g.below(500); } }
        l.push_back(x);
    }
    session(m, l, g.chance(1, 2));
}
// pipelines that fail in the middle, again and again: nothing stale flows on
SCENARIO_W(failing_pipelines, 3)
{
    auto& g = sim::in(); Model m = start(); std::vector<Line> l;
    for (size_t i = 0, n = 4 + g.below(8); i < n; ++i) {
        Line x; x.s.push_back({"read", {infile()}}); static const char* c[] = {"getRplane", "getGplane", "dct2", "idct2"};
        for (size_t j = 0, k = 1 + g.below(3); j < k; ++j) { switch (g.below(4)) { case 0: x.s.push_back({"multiply", {g.chance(1, 4) ? "oops" : N(1 + g.below(3))}}); break; case 1: x.s.push_back({"subimage", {N(g.below(3)), N(g.below(3)), N(1 + g.below(4)), N(1 + g.below(4))}}); break; case 2: x.s.push_back({g.pick(c), {}}); break; default: x.s.push_back({"bicubic_resize", {N(small()), N(small())}}); } }
        if (g.chance(1, 3)) x.s.push_back({"write", {outfile()}}); else x.out = name();
        if (g.chance(1, 3)) { x.fault = 2; x.rate = 200 + (uint32_t)g.below(500); }
        l.push_back(x);
    }
    session(m, l, g.chance(1, 2));
}
// one command from the shell, files in and out
SCENARIO_W(one_shot, 3)
{
    auto& g = sim::in(); Model m = start(); Stage s; do s = stage(true, true, false); while (s.c == "save_workspace" || s.c == "load_workspace");
    for (auto& a : s.a) { if (a[0] == '$' && g.chance(4, 5)) a = !(s.c == "ones" || s.c == "zeros" || s.c == "grid" || s.c == "gaussian_figure_2d") && (&a == &s.a.front() || (policy(s.a[0]) && &a == &s.a[1])) ? infile() : outfile(); }
    bool pol_ = false; for (auto& a : s.a) pol_ = pol_ || policy(a);
    Line l; l.s.push_back(s); try { Model c = m; eval(c, l); } catch (const Unknown&) { return; } bool disk = g.chance(1, 2), oom = !disk && !pol_ && g.chance(1, 2); if (disk) { auto& c = sim::fs(); c.p_read_err = c.p_write_err = 100 + (uint32_t)g.below(500); c.p_open_err = c.p_close_err = 100; } sim::fs().soft = g.chance(1, 2);
    std::vector<std::string> av = {"tinydip", s.c}; for (auto& a : s.a) av.push_back(a); std::vector<char*> ap; for (auto& a : av) ap.push_back(a.data()); ap.push_back(nullptr);
    Term term; std::optional<sim::AllocGuard> ag; uint32_t nth = 1 + (uint32_t)g.below(30); int rc = -1;
    term.out.first = [&] { size_t nl = 0; for (size_t i = 0; i < term.out.n; ++i) nl += term.out.b[i] == '\n'; if (nl == 0) term.out.armed = true; else ag.emplace(nth, false); };   // the first line comes from start-up
    sim::run([&] { term.out.armed = oom; rc = td_main((int)av.size(), ap.data()); ag.reset(); });
    std::string t(term.out.b, term.out.n); bool fired = sim::fs_hard_faults() > 0 || (oom && sim::alloc_fault_fired()); std::string line_; for (auto& a : av) line_ += a + " ";
    Model after = m; bool ok = eval(after, l), failed = says_failed(t); sim::fs_clear_faults();
    if (rc != 0) sim::violation("command ended with exit status " + N((size_t)rc) + ": " + line_);
    if (!fired && ok && failed) sim::violation("a command that must succeed reports failure: " + line_ + "-> " + t);
    if (!ok && !failed) sim::violation("a command that cannot succeed reports no failure: " + line_ + "-> " + t);
    if (ok && !failed) { if (!after.shown.empty() && !has(t, after.shown)) sim::violation("wrong answer: " + line_ + "-> " + t); for (auto& [p, x] : after.f) if (x && p.rfind("/simfs/o", 0) == 0) { auto d = decode(p); if (!d || !near(*x, *d)) sim::violation("the output file does not hold the result of " + line_); } }
    for (size_t i = 0; i < NFILES; ++i) if (m.f.count(FILES[i])) { auto d = decode(FILES[i]); if (!d || !near(*m.f[FILES[i]], *d)) sim::violation("a command damaged its input file: " + line_); }
    if (sim::fs_open_handles()) sim::violation("file left open by " + line_);
}
// any line at all: whatever its commands and arguments, the session goes on and nothing it does not mention changes
SCENARIO_W(any_line, 4)
{
    auto& g = sim::in(); Model m = start(); sim::fs().soft = false;
    static const char* cmds[] = {"append_element", "bicubic_resize", "constructRGB", "copy", "create_container", "dct2", "dct3", "erase_element", "gaussian_figure_2d", "get_element", "getBplane", "getGplane", "getRplane", "get_sift_potential_keypoint", "grid", "hsv2rgb", "idct2", "im2double", "im2uint8", "info", "lanczos_resample", "load_workspace", "multiply", "normalize", "ones", "print", "rand", "read", "remove", "rename", "rotate", "save_workspace", "sift_generate_octave", "subimage", "to_complex", "vars", "write", "zeros", "count", "help", "transform_container", "load_plugins", "batch_add_zeros", "bogus"};
    static const char* pool[] = {"0", "1", "2", "3", "5", "7", "-1", "abc", "99999999999", "2.5", "nan", "1e400", "mt19937", "minstd_rand", "multiply", "im2double", "par", "seq", "par_unseq", "$", "\"$a\"", "'", "/simfs/in1.bmp", "/simfs/in2.dbmp", "/simfs/in3.hsv", "/simfs/missing.bmp", "/simfs/nodir/x.bmp", "/simfs/cwd", "/simfs/z1.bmp", "/simfs/z2.csv", "/simfs/z3.ppm", "$a", "$b", "$c", "$img", "$img", "$v", "$f1", "$f2", "$f1", "$f2", "$nothing"};
    std::vector<std::string> lines = {"read /simfs/in1.bmp $img", "read /simfs/in2.dbmp $a", "read /simfs/in3.hsv $b", "getRplane $img $c", "create_container $a $v", "read /simfs/in1.bmp $keep1", "read /simfs/in2.dbmp $keep2", "im2double $c $f1", "sift_generate_octave $a $f2 2"};
    size_t setup = lines.size(); std::set<std::string> names = {"img", "a", "b", "keep1", "keep2"}; std::map<std::string, std::string> src = {{"img", FILES[0]}, {"a", FILES[1]}, {"b", FILES[2]}, {"keep1", FILES[0]}, {"keep2", FILES[1]}};
    auto lose = [&](const std::string& l) { if (has(l, "all") || has(l, "load_workspace")) { if (has(l, "remove all") || has(l, "load_workspace")) names.clear(); } std::set<std::string> keep; for (auto& n : names) { size_t p = 0; bool hit = false; while ((p = l.find("$" + n, p)) != std::string::npos) { hit = true; break; } if (!hit) keep.insert(n); } names = keep; };
    for (size_t i = 0, n = 1 + g.below(6); i < n; ++i) {
        std::string l; for (size_t j = 0, st = g.chance(1, 4) ? 2 + g.below(2) : 1; j < st; ++j) { if (j) l += g.chance(1, 6) ? " || " : " | "; l += g.pick(cmds); for (size_t q = 0, na = g.below(8); q < na; ++q) l += std::string(" ") + (g.chance(1, 3) ? g.pick(NAMES)[0] == 'x' ? "$f1" : "$f2" : g.pick(pool)); }
        if (g.chance(1, 8)) l += " | $f1"; if (g.chance(1, 30)) l = "| " + l; if (g.chance(1, 40)) l += " |";
        if (has(l, "remove all")) continue;
        if (has(l, "99999999999") && has(l, " 0")) continue; // an empty image with a huge side: pointless but long loops
        lines.push_back(l); lose(l);
    }
    sim::cfg().mem_budget = 48ull << 20; sim::fs_put("/simfs/cwd/readme", "x"); sim::fs_relative(true);
    Term term; size_t k = 0, mark = 0; int rc = -1; bool saved = false; std::string hist; bool fin = false;
    term.in.next = [&](std::string& s) -> bool {
        mark = term.out.n > (1u << 19) ? (term.out.n = 0) : term.out.n; (void)mark;
        if (k < lines.size()) { s = lines[k++]; hist += s + " ; "; return true; }
        if (!fin) { fin = true; s = "save_workspace /simfs/final"; return true; }
        saved = true; return false;
    };
    (void)setup; sim::run([&] { char nm[] = "tinydip"; char* av[] = {nm, nullptr}; rc = td_main(1, av); });
    if (getenv("C14_TTY")) fwrite(term.out.b, 1, term.out.n, stderr);
    if (rc != 0 || !saved) sim::violation("the session ended early: " + hist);
    for (auto& n : names) { auto x = m.f[src[n]]; auto d = decode("/simfs/final/" + n + ext(*x)); if (!d || !near(*x, *d)) sim::violation("a variable no command mentioned changed: $" + n + " | session: " + hist); }
    if (sim::fs_open_handles()) sim::violation("file left open | session: " + hist);
}
