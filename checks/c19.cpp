// C19: plug-ins. The real program with its real plug-ins; the dynamic loader below it is simulated, so that it knows at every
// moment which code is mapped.
#include "main.h"
#include "session.h"
extern "C" { void reg_plugin_math(CommandRegistry&); void reg_plugin_math_add(CommandRegistry&); void reg_plugin_replace(CommandRegistry&); }
namespace {
// ---- the simulated loader
enum LibKind { MATH, ADD, REPLACE, TOY, NOSYM, BAD, THROWS, CLASH, NKINDS };
struct Lib { char path[64]; LibKind kind; int id; int refs; uint32_t gen; bool failed; bool ever; };
Lib libs[8]; int nlibs = 0; uint32_t dl_rate = 0; uint32_t dl_faults = 0; char dl_text[96];
std::optional<sim::AllocGuard> dl_guard; uint32_t dl_at = 0, dl_nth = 0; bool dl_sticky = false;     // memory runs out while a plug-in is loaded, not in the library's directory_iterator, which cannot report it
// something that lives in the code of a library: usable only while the library is loaded
struct Code {
    Lib* l; uint32_t gen;
    explicit Code(Lib* x) : l(x), gen(x->gen) {}
    Code(const Code& o) : l(o.l), gen(o.gen) { ok("copied"); }
    Code(Code&& o) : l(o.l), gen(o.gen) { ok("moved"); }
    Code& operator=(const Code& o) { ok("assigned"); l = o.l; gen = o.gen; ok("assigned"); return *this; }
    ~Code() { ok("destroyed"); }
    void ok(const char* what) const { if (!l->refs || l->gen != gen) sim::violation(std::string("code or data of a plug-in is ") + what + " after its library was unloaded: " + l->path); }
};
struct Tok { Code c; int id; int n; };
struct PTok { int id; int n; };    // the same in the reference
std::vector<std::string> commands(const Lib& l)
{
    std::string n = N((size_t)l.id);
    switch (l.kind) {
    case MATH: return {"abs", "max", "min", "sum", "subtract"};
    case ADD: return {"add"}; case REPLACE: return {"replace"};
    case TOY: return {"hello" + n, "mk" + n, "use" + n};
    case CLASH: return {"only_clash"}; case THROWS: return {"half"};
    default: return {};
    }
}
void lib_register(Lib* l, CommandRegistry& r)
{
    if (!l->refs) sim::violation(std::string("a plug-in is started after its library was unloaded: ") + l->path);
    std::string n = N((size_t)l->id); Code code(l); using A = std::span<const std::string_view>;
    if (l->kind == MATH || l->kind == ADD || l->kind == REPLACE) {
        auto own = std::make_shared<CommandRegistry>(); (l->kind == MATH ? reg_plugin_math : l->kind == ADD ? reg_plugin_math_add : reg_plugin_replace)(*own);
        for (auto& c : commands(*l)) if (auto sc = own->get_schema(c)) r.register_command(c, "plug-in command", *sc, [code, own, c](Workspace& w, A a, std::ostream& os) { code.ok("called"); own->execute(w, c, a, os); code.ok("running"); });
    } else if (l->kind == TOY) {
        int id = l->id;
        r.register_command("hello" + n, "greets", [code, n](Workspace&, A, std::ostream& os) { code.ok("called"); os << "hello from " << n << "\n"; });
        r.register_command("mk" + n, "stores", IOSchema{-1, 0}, [code, id](Workspace& w, A a, std::ostream& os) { code.ok("called"); if (a.size() < 2 || a[0][0] != '$') { os << "Usage: mk\n"; return; } int k = atoi(std::string(a[1]).c_str()); w.store(a[0].substr(1), Tok{code, id, k}); os << "stored\n"; });
        r.register_command("use" + n, "shows", IOSchema{0, -1}, [code](Workspace& w, A a, std::ostream& os) { code.ok("called"); const Tok* t = a.empty() || a[0].empty() || a[0][0] != '$' ? nullptr : w.retrieve<Tok>(a[0].substr(1)); if (!t) { os << "Error: no token\n"; return; } t->c.ok("used"); os << "token " << t->id << " " << t->n << "\n"; });
    } else if (l->kind == CLASH) {
        for (const char* c : {"ones", "info", "help", "copy", "multiply"}) r.register_command(c, "impostor", IOSchema{0, 1}, [code](Workspace& w, A, std::ostream& os) { w.clear(); os << "Error: impostor\n"; });
        r.register_command("only_clash", "own", [code](Workspace&, A, std::ostream& os) { code.ok("called"); os << "hello from clash\n"; });
    } else if (l->kind == THROWS) {
        r.register_command("half", "registered before the failure", [code](Workspace&, A, std::ostream& os) { code.ok("called"); os << "half\n"; });
        throw std::runtime_error("cannot start");
    }
}
template <int I> void thunk(CommandRegistry& r) { lib_register(&libs[I], r); }
void (*THUNKS[8])(CommandRegistry&) = {thunk<0>, thunk<1>, thunk<2>, thunk<3>, thunk<4>, thunk<5>, thunk<6>, thunk<7>};
} // namespace
extern "C" {
void* sim_dlopen(const char* p, int)
{
    if (dl_at && --dl_at == 0) dl_guard.emplace(dl_nth, dl_sticky);
    if (p[0] == '.' && p[1] == '/') p += 2;
    for (int i = 0; i < nlibs; ++i) {
        Lib& l = libs[i]; const char* q = l.path; if (p[0] != '/' && !strncmp(q, "/simfs/cwd/", 11)) q += 11;
        if (strcmp(q, p)) continue;
        if (l.kind == BAD) break;
        if (!l.refs && dl_rate && sim::decide_p(sim::K_MISC, 2, dl_rate, 1000)) { l.failed = true; ++dl_faults; sim::fault("dlopen-failure"); break; }
        if (!l.refs++) ++l.gen;
        return &l;
    }
    snprintf(dl_text, sizeof dl_text, "cannot open shared object file"); return nullptr;
}
void* sim_dlsym(void* h, const char* s)
{
    Lib* l = (Lib*)h; if (!l->refs) sim::violation(std::string("a symbol is looked up in a library already unloaded: ") + l->path);
    if (strcmp(s, "register_plugin_commands") || l->kind == NOSYM) { snprintf(dl_text, sizeof dl_text, "undefined symbol"); return nullptr; }
    return (void*)THUNKS[l - libs];
}
int sim_dlclose(void* h) { Lib* l = (Lib*)h; if (!l->refs) sim::violation(std::string("a library is unloaded more often than it was loaded: ") + l->path); --l->refs; return 0; }
char* sim_dlerror() { return dl_text; }
}
namespace {
const char* DIRS[] = {"/simfs/cwd/plugins", "/simfs/p2", "/simfs/p3"};
const char* TYPED[] = {"./plugins", "/simfs/p2", "/simfs/p3"};
const char* EXTS[] = {".so", ".so", ".dll", ".dylib"};
bool loadable(const Lib& l) { std::string e = std::filesystem::path(l.path).extension().string(); return e == ".so" || e == ".dll" || e == ".dylib"; }
std::string file_of(const Lib& l) { return std::filesystem::path(l.path).filename().string(); }
std::string dir_of(const Lib& l) { return std::filesystem::path(l.path).parent_path().string(); }
std::string place(std::string s) { s = clean(s); while (s.size() > 1 && s.back() == '/') s.pop_back(); return s == "./plugins" || s == "plugins" ? DIRS[0] : s; }
bool has_dir[3];
// the disk with its plug-ins
void install()
{
    auto& g = sim::in(); nlibs = 0; dl_rate = 0; dl_faults = 0; IO_MORE.clear(); std::set<int> kinds;
    sim::fs_put("/simfs/cwd/readme", "x"); sim::fs_relative(true);
    for (int d = 0; d < 3; ++d) { has_dir[d] = g.chance(5, 6); if (has_dir[d]) sim::fs_put(std::string(DIRS[d]) + "/readme.txt", "x"); }
    for (int i = 0, n = 2 + (int)g.below(6); i < n; ++i) {
        int d = (int)g.below(3); if (!has_dir[d]) continue;
        Lib& l = libs[nlibs]; memset((void*)&l, 0, sizeof l); l.kind = (LibKind)(g.chance(1, 2) ? g.below(TOY + 1) : g.below(NKINDS)); l.id = l.kind == TOY ? (int)g.below(4) : 0;
        static const char* names[] = {"math", "add", "replace", "toy", "nosym", "bad", "throws", "clash"};
        snprintf(l.path, sizeof l.path, "%s/%s%d%s", DIRS[d], names[l.kind], i, g.chance(1, 10) ? ".txt" : g.pick(EXTS)); ++nlibs;
        sim::fs_put(l.path, "\x7f" "ELF"); for (auto& c : commands(l)) if (c.rfind("mk", 0) == 0) IO_MORE[c] = {-1, 0}; else if (c.rfind("use", 0) == 0) IO_MORE[c] = {0, -1}; else if (l.kind == TOY || c == "only_clash" || c == "half") IO_MORE[c] = {-1, -1};
    }
    IO_MORE["help"] = {-1, -1};
}
D dmap(const D& d, double (*f)(double, double, double), double a = 0, double b = 0) { std::vector<double> q; for (double y : d.getImageData()) q.push_back(f(y, a, b)); return D(q, d.getWidth(), d.getHeight()); }
bool plug_command(Model& m, const std::string& c, const Args& a)
{
    auto need = [&](size_t n) { if (a.size() < n) throw Fail{}; };
    for (size_t i = 0; i < a.size(); ++i) if (a[i][0] == '$' && m.v.count(a[i].substr(1)) && as<PTok>(m.v[a[i].substr(1)]) && c != "copy" && c != "rename" && c != "remove" && c.rfind("use", 0) != 0 && !(i == a.size() - 1 && (c == "ones" || c == "read")) && c.rfind("mk", 0) != 0) throw Unknown{};
    if (c == "load_plugins") return true;      // its effect: loaded()
    if (c == "transform_container" && a.size() > 2 && a[2] == "abs") {
        if (m.maybe.count("abs")) throw Unknown{}; m.out_var(a[1]); V x = m.var(a[0]); auto p = as<std::vector<D>>(x); if (!p || p->empty()) throw Unknown{}; if (!m.extra.count("abs")) throw Fail{};
        auto o = *p; for (auto& d : o) d = dmap(d, [](double y, double, double) { return std::abs(y); }); m.save(a[1], {o, x.tol}); return true;
    }
    if (!m.extra.count(c) && !m.maybe.count(c)) return false;
    if (c.rfind("hello", 0) == 0) { m.shown += "hello from " + c.substr(5) + "\n"; return true; }
    if (c == "only_clash") { m.shown += "hello from clash\n"; return true; }
    if (c == "half") { m.shown += "half\n"; return true; }
    if (c.rfind("mk", 0) == 0) { need(2); m.out_var(a[0]); m.v[a[0].substr(1)] = {std::any(PTok{atoi(c.c_str() + 2), atoi(a[1].c_str())})}; return true; }
    if (c.rfind("use", 0) == 0) { need(1); V x = m.var(a[0]); auto t = as<PTok>(x); if (!t) throw Fail{}; m.shown += "token " + N((size_t)t->id) + " " + N((size_t)t->n) + "\n"; return true; }
    auto D_ = [&](const std::string& s) { V x = m.load(s); if (!as<D>(x)) throw Unknown{}; return x; };
    if (c == "abs") { need(2); V x = D_(a[0]); m.save(a[1], {dmap(*as<D>(x), [](double y, double, double) { return std::abs(y); }), x.tol}); return true; }
    if (c == "max" || c == "min" || c == "sum") {
        need(1); V x = D_(a[0]); auto& d = *as<D>(x); if (x.tol || !d.count()) throw Unknown{}; double r = c == "sum" ? 0 : d.getImageData()[0];
        for (double y : d.getImageData()) { if (!(std::abs(y) < 1e9) || y != std::floor(y)) throw Unknown{}; r = c == "sum" ? r + y : c == "max" ? std::max(r, y) : std::min(r, y); }
        if (a.size() > 1) { if (a[1][0] != '$') throw Unknown{}; m.v[a[1].substr(1)] = {std::any(r)}; } else m.shown += std::string(c == "max" ? "Max" : c == "min" ? "Min" : "Sum") + " result: " + shown_number(r) + "\n";
        return true;
    }
    if (c == "add" || c == "subtract") {
        need(3); V x = D_(a[0]), y = D_(a[1]); auto &p = *as<D>(x), &q = *as<D>(y); if (x.tol || y.tol) throw Unknown{}; if (p.getSize() != q.getSize()) throw Fail{};
        std::vector<double> o; for (size_t i = 0; i < p.count(); ++i) o.push_back(c == "add" ? p.getImageData()[i] + q.getImageData()[i] : p.getImageData()[i] - q.getImageData()[i]); m.save(a[2], {D(o, p.getWidth(), p.getHeight())}); return true;
    }
    if (c == "replace") { need(4); if (a[1][0] == '$' || a[2][0] == '$') throw Unknown{}; double t = real(a[1]), n = real(a[2]); V x = D_(a[0]); if (x.tol) throw Unknown{}; m.save(a[3], {dmap(*as<D>(x), [](double y, double u, double w) { return y == u ? w : y; }, t, n)}); return true; }
    return false;
}
// what a scan of a directory must have done
void loaded(const std::string& dir, const std::string& t, Model& m, bool fired, const std::function<void(const std::string&)>& bad)
{
    bool there = false; for (int d = 0; d < 3; ++d) there = there || (has_dir[d] && dir == DIRS[d]);
    if (!there) { if (!fired && !has(t, "directory found")) bad("load_plugins of a directory that is not there does not say so: " + t); return; }
    for (int i = 0; i < nlibs; ++i) {
        Lib& l = libs[i]; if (dir_of(l) != dir) continue;
        bool said = has(t, "Loaded module: " + file_of(l) + "\n"), works = loadable(l) && (l.kind <= TOY || l.kind == CLASH) && !l.failed;
        if (said && !works) bad("a plug-in that cannot be loaded is reported as loaded: " + file_of(l)); if (!fired && works && !said) bad("a plug-in that can be loaded is not: " + file_of(l) + " -> " + t);
        if (!loadable(l) || l.failed || l.kind == BAD || l.kind == NOSYM) continue;
        for (auto& c : commands(l)) { if (said) { m.extra.insert(c); m.maybe.erase(c); } else if (!m.extra.count(c)) m.maybe.insert(c); }
    }
    for (int i = 0; i < nlibs; ++i) libs[i].failed = false;
}
void plug_session(Model m, std::vector<Line> lines, bool exit_cmd)
{
    m.more = plug_command; sim::fs_on_readdir([] { dl_guard.reset(); }); dl_at = 0; arm_line = [](const Line& l) { dl_at = 1 + l.nth % 3; dl_nth = 1 + l.nth / 3; dl_sticky = l.sticky; };
    session(m, lines, exit_cmd, [](size_t, const Line* l, const std::string& t, Model& mm, bool fired) {
        auto bad = [&](const std::string& s) { sim::violation(s); }; dl_at = 0; dl_guard.reset();
        if (!l) { loaded(DIRS[0], t, mm, fired, bad); return; }
        if (l->s.size() == 1) { auto& s = l->s[0];
            if (s.c == "load_plugins") loaded(place(s.a.empty() ? "./plugins" : s.a[0]), t, mm, fired, bad);
            else if (s.c == "help" && !fired) { for (auto& c : mm.extra) if (!has(t, "\n  " + c + " ")) bad("help does not list the plug-in command " + c); }
            else if (mm.maybe.count(s.c)) { mm.maybe.erase(s.c); if (!has(t, "Unknown command: " + s.c)) mm.extra.insert(s.c); } }
    });
}
Stage plug_stage(bool first, bool last, bool need_out)
{
    auto& g = sim::in(); Stage s; auto I = [&] { if (first) s.a.push_back(g.chance(1, 6) ? "/simfs/in2.dbmp" : name()); }; auto O = [&] { if (last && !need_out) s.a.push_back(g.chance(1, 6) ? outfile() : name()); };
    std::string p = g.chance(1, 3) ? pol() : ""; if (!p.empty()) s.a.push_back(p);
    switch (g.below(6)) {
    case 0: s.c = "abs"; I(); O(); break;
    case 1: { static const char* c[] = {"max", "min", "sum"}; s.c = g.pick(c); I(); if (last && !need_out && g.chance(1, 2)) s.a.push_back(name()); break; }
    case 2: s.c = g.chance(1, 2) ? "add" : "subtract"; I(); s.a.push_back(name()); O(); break;
    case 3: s.c = "replace"; I(); s.a.push_back(N(g.below(4))); s.a.push_back(N(g.below(9))); O(); break;
    default: { std::string n = N(g.below(4)); s.a.clear(); if (first && g.chance(1, 2)) { s.c = "mk" + n; if (last && !need_out) s.a.push_back(name()); s.a.push_back(N(g.below(100))); } else { s.c = g.chance(1, 8) ? "hello" + n : "use" + n; if (first && s.c[0] == 'u') s.a.push_back(name()); } }
    }
    return s;
}
Line plug_line()
{
    auto& g = sim::in(); Line l;
    switch (g.below(12)) {
    case 0: case 1: { Stage s; s.c = "load_plugins"; if (g.chance(5, 6)) { std::string d = TYPED[g.below(3)]; if (g.chance(1, 10)) d = "\"" + d + "\""; if (g.chance(1, 20)) d = "/simfs/none"; s.a.push_back(d); } l.s.push_back(s); return l; }
    case 2: l.s.push_back({g.chance(1, 2) ? "help" : g.chance(1, 2) ? "only_clash" : "half", {}}); return l;
    case 3: case 4: return line();
    case 5: l.s.push_back({"transform_container", {name(), name(), "abs"}}); return l;
    case 6: { static const char* c[] = {"copy", "rename"}; l.s.push_back({g.pick(c), {name(), name()}}); return l; }
    default: break;
    }
    size_t n = g.chance(1, 3) ? 2 + g.below(2) : 1; bool fin = n > 1 && g.chance(1, 2); for (size_t i = 0; i < n; ++i) l.s.push_back(g.chance(2, 3) ? plug_stage(i == 0, i + 1 == n, fin) : stage(i == 0, i + 1 == n, fin)); if (fin) l.out = name();
    return l;
}
void may_fail(Line& x)
{
    auto& g = sim::in(); if (!g.chance(1, 2)) return; bool pol_ = false, multi = x.s.size() > 1, ws = false; for (auto& s : x.s) { for (auto& a : s.a) pol_ = pol_ || policy(a); ws = ws || s.c == "save_workspace" || s.c == "load_workspace" || s.c == "remove"; multi = multi || s.c == "multiply" || s.c == "no_such_command"; if (x.s.size() > 1 && io(s.c) == std::pair{-1, -1}) ws = true; }
    if (ws) return;
    if (!pol_ && !multi && g.chance(2, 3)) { x.fault = x.s[0].c == "load_plugins" ? 3 : 1; x.nth = 1 + (uint32_t)g.below(x.fault == 1 ? 30 : g.chance(1, 2) ? 8 : 60); x.sticky = g.chance(1, 3); } else { x.fault = 2; x.rate = 100 + (uint32_t)g.below(500); }
}
} // namespace
SCENARIO_W(plugins, 3)
{
    auto& g = sim::in(); Model m = start(); install(); sim::fs().soft = g.chance(1, 2); std::vector<Line> l; for (size_t i = 0, n = 4 + g.below(14); i < n; ++i) l.push_back(plug_line()); plug_session(m, l, g.chance(1, 2));
}
SCENARIO_W(plugins_with_faults, 5)
{
    auto& g = sim::in(); Model m = start(); install(); dl_rate = g.chance(1, 2) ? 50 + (uint32_t)g.below(400) : 0; sim::fs().soft = g.chance(1, 2);
    if (g.chance(1, 3)) { sim::fs().p_dir_err = 100 + (uint32_t)g.below(400); sim::fs().p_open_err = g.chance(1, 2) ? 300 : 0; }     // the disk fails while the program starts
    std::vector<Line> l; for (size_t i = 0, n = 4 + g.below(14); i < n; ++i) { Line x = plug_line(); may_fail(x); l.push_back(x); } plug_session(m, l, g.chance(1, 2));
}
// tokens everywhere, and the same directories loaded over and over
SCENARIO_W(values_of_plugins, 3)
{
    auto& g = sim::in(); Model m = start(); install(); dl_rate = g.chance(1, 3) ? 200 : 0; std::vector<Line> l;
    for (size_t i = 0, n = 6 + g.below(14); i < n; ++i) {
        Line x; std::string k = N(g.below(4));
        switch (g.below(6)) { case 0: case 1: x.s.push_back({"load_plugins", {TYPED[g.below(3)]}}); break; case 2: case 3: x.s.push_back({"mk" + k, {name(), N(g.below(100))}}); break; case 4: x.s.push_back({"use" + k, {name()}}); break; default: x.s.push_back({g.chance(1, 2) ? "copy" : "rename", {name(), name()}}); }
        may_fail(x); l.push_back(x);
    }
    plug_session(m, l, g.chance(1, 2));
}
// a command of a plug-in from the shell
SCENARIO_W(one_shot_plugin, 2)
{
    auto& g = sim::in(); Model m = start(); install(); m.more = plug_command; dl_rate = g.chance(1, 4) ? 300 : 0; bool disk = g.chance(1, 3);
    Stage s; switch (g.below(5)) { case 0: s = {"abs", {"/simfs/in2.dbmp", outfile()}}; break; case 1: { static const char* c[] = {"max", "min", "sum"}; s = {g.pick(c), {"/simfs/in2.dbmp"}}; break; } case 2: s = {g.chance(1, 2) ? "add" : "subtract", {"/simfs/in2.dbmp", "/simfs/in2.dbmp", outfile()}}; break; case 3: s = {"replace", {"/simfs/in2.dbmp", N(g.below(5)), N(g.below(5)), outfile()}}; break; default: s = {"mk" + N(g.below(4)), {"$a", "5"}}; }
    Line l; l.s.push_back(s); if (disk) { auto& c = sim::fs(); c.p_dir_err = g.chance(1, 2) ? 200 : 0; c.p_open_err = 100; c.p_read_err = c.p_write_err = 100 + (uint32_t)g.below(400); }
    std::vector<std::string> av = {"tinydip", s.c}; for (auto& a : s.a) av.push_back(a); std::vector<char*> ap; for (auto& a : av) ap.push_back(a.data()); ap.push_back(nullptr);
    Term term; int rc = -1; std::string line_; for (auto& a : av) line_ += a + " ";
    sim::run([&] { rc = td_main((int)av.size(), ap.data()); });
    std::string t(term.out.b, term.out.n); bool fired = sim::fs_hard_faults() > 0; sim::fs_clear_faults();
    auto bad = [&](const std::string& x) { sim::violation(x + " | " + line_ + "-> " + t); };
    if (rc != 0) bad("exit status " + N((size_t)rc)); loaded(DIRS[0], t, m, fired, bad);
    if (m.maybe.count(s.c) && !has(t, "Unknown command: " + s.c)) m.extra.insert(s.c);
    Model after = m; bool ok; try { ok = eval(after, l); } catch (const Unknown&) { return; } bool failed = says_failed(t);
    if (!fired && ok && failed) bad("a command that must succeed reports failure"); if (!ok && !failed) bad("a command that cannot succeed reports no failure");
    if (ok && !failed) { if (!after.shown.empty() && !has(t, after.shown)) bad("wrong answer, expected " + after.shown); for (auto& [p, x] : after.f) if (x && p.rfind("/simfs/o", 0) == 0) { auto d = decode(p); if (!d || !near(*x, *d)) bad("the output file does not hold the result"); } }
    if (sim::fs_open_handles()) bad("file left open");
}
