// The input engine and initialization values.
#include "lua_common.h"
#include <ristra/initialization/input_engine.h>
#include <ristra/initialization/init_value.h>
using namespace ristra;
using F = std::function<int(int)>;
struct traits { using types = std::tuple<int, double, std::string, F, std::vector<int>>; };
struct engine : input_engine_t<traits> { using base = input_engine_t<traits>; using base::get_registry; using base::get_target_set; using base::get_failed_target_set; };
template<class T> using val = init_value_t<T, engine>;
template<class E, class G> static bool throws_as(G g) { try { g(); } catch (const E &) { return true; } catch (...) { return false; } return false; }
template<class G> static bool throws_any(G g) { try { g(); } catch (const std::exception &) { return true; } return false; }
static int LI; static double LD; static char LC; static bool in_lua[8];
static int fn_l(lua_State *L) { lua_pushinteger(L, lua_tointeger(L, 1) + 100); return 1; }
static void field(lua_State *L, const char *k) { lua_setfield(L, -2, k); }
static int file(lua_State *L) { lua_newtable(L); lua_newtable(L); field(L, "mesh"); if (in_lua[0]) { lua_pushinteger(L, LI); field(L, "i"); } if (in_lua[1]) { lua_pushnumber(L, LD); field(L, "d"); } if (in_lua[2]) { lua_pushlstring(L, &LC, 1); field(L, "s"); } if (in_lua[3]) { lua_pushcfunction(L, fn_l); field(L, "f"); } if (in_lua[4]) { lua_newtable(L); lua_pushinteger(L, LI); lua_rawseti(L, -2, 1); field(L, "v"); } lua_setglobal(L, "hydro"); return 0; }
static lua_source_t *new_lua() { chunk_fn = file; chunk_status = LUA_OK; auto *s = new lua_source_t("f.lua"); for (const char *k : {"i", "d", "s", "f", "v"}) s->register_value(k, "hydro"); s->register_value("ns:i", "hydro", "i"); s->register_value("x", "hydro", "nowhere"); return s; }
static void start(engine &e) { e.clear_registry(); hard_coded_source_t h; h.clear_registry<traits::types>(); for (bool &b : in_lua) b = false; LI = sym_int("LI"); LD = sym_real("LD"); LC = sym_char("LC"); }
static F coded_f(int k) { return [k](int a) { return a ^ k; }; }
// every combination of sources, for each type
HARNESS(priority_int) { engine e; start(e); int h = sym_int("h"); bool lua = sym_pick("lua", 0, 1), hc = sym_pick("hc", 0, 1), il = sym_pick("in_lua", 0, 1), ih = sym_pick("in_hc", 0, 1); in_lua[0] = il; if (lua) e.register_lua_source(new_lua()); if (hc) { auto *s = new hard_coded_source_t; if (ih) s->set_registry<int>({{"i", h}}); e.register_hard_coded_source(s); } sym_assert(e.has_lua_source() == lua && e.has_hard_coded_source() == hc, "has-source"); e.register_target<int>("i"); sym_assert(!e.resolved<int>("i"), "unresolved-before"); bool all = e.resolve_inputs(), found = (lua && il) || (hc && ih); sym_assert(all == found && e.resolved<int>("i") == found, "int-resolved"); if (found) sym_assert(e.get_value<int>("i") == (lua && il ? LI : h), "int-priority"); else sym_assert(throws_any([&] { e.get_value<int>("i"); }), "int-missing"); sym_assert(e.get_failed_target_set<int>().count("i") == (found ? 0 : 1), "int-failures"); }
HARNESS(priority_rest) { engine e; start(e); int k = sym_pick("type", 1, 4); bool il = sym_pick("in_lua", 0, 1), ih = sym_pick("in_hc", 0, 1); in_lua[k] = il; double hd = sym_real("hd"); char hc = sym_char("hc"); int hi = sym_int("hi"); e.register_lua_source(new_lua()); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); if (ih) { s->set_registry<double>({{"d", hd}}); s->set_registry<std::string>({{"s", std::string(2, hc)}}); s->set_registry<F>({{"f", coded_f(hi)}}); s->set_registry<std::vector<int>>({{"v", {hi, 7}}}); } if (k == 1) e.register_target<double>("d"); else if (k == 2) e.register_target<std::string>("s"); else if (k == 3) e.register_target<F>("f"); else e.register_target<std::vector<int>>("v"); bool found = il || ih; sym_assert(e.resolve_inputs() == found, "all-resolved");
  if (k == 1) { sym_assert(e.resolved<double>("d") == found, "double-resolved"); if (found) sym_eq(e.get_value<double>("d"), il ? LD : hd, "double-priority"); else sym_assert(throws_any([&] { e.get_value<double>("d"); }), "double-missing"); }
  else if (k == 2) { sym_assert(e.resolved<std::string>("s") == found, "string-resolved"); if (found) sym_assert(e.get_value<std::string>("s") == (il ? std::string(1, LC) : std::string(2, hc)), "string-priority"); else sym_assert(throws_any([&] { e.get_value<std::string>("s"); }), "string-missing"); }
  else if (k == 3) { sym_assert(e.resolved<F>("f") == found, "function-resolved"); int a = sym_int_in("a", -1000, 1000); if (found) { F f = e.get_value<F>("f"); sym_assert(f(a) == (il ? a + 100 : (a ^ hi)), "function-priority"); } else sym_assert(throws_any([&] { e.get_value<F>("f"); }), "function-missing"); }
  else { sym_assert(e.resolved<std::vector<int>>("v") == found, "vector-resolved"); if (found) { auto &v = e.get_value<std::vector<int>>("v"); sym_assert(v.size() == (il ? 1 : 2) && v[0] == (il ? LI : hi), "vector-priority"); } else sym_assert(throws_any([&] { e.get_value<std::vector<int>>("v"); }), "vector-missing"); } }
// one that is missing does not stop the others
HARNESS(missing_first) { engine e; start(e); int v = sym_int("v"), u = sym_int("u"), a = sym_int("a"), gone = sym_pick("gone", 0, 2); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); static const char *const n[] = {"a", "b", "c"}; for (int k = 0; k < 3; k++) { if (k != gone) { s->set_registry<int>({{n[k], v + k - k}}); s->set_registry<F>({{n[k], coded_f(u)}}); } e.register_target<int>(n[k]); e.register_target<F>(n[k]); } sym_assert(!e.resolve_inputs(), "one-missing"); for (int k = 0; k < 3; k++) { sym_assert(e.resolved<int>(n[k]) == (k != gone) && e.resolved<F>(n[k]) == (k != gone), "rest-resolved"); if (k != gone) sym_assert(e.get_value<int>(n[k]) == v && e.get_value<F>(n[k])(a) == (a ^ u), "rest-values"); sym_assert(e.get_failed_target_set<int>().count(n[k]) == (k == gone) && e.get_failed_target_set<F>().count(n[k]) == (k == gone), "missing-reported"); } }
// names and types are independent of each other
HARNESS(apart) { engine e; start(e); int v = sym_int("v"), u = sym_int("u"); double d = sym_real("d"); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); s->set_registry<int>({{"x", v}, {"y", u}, {"unasked", 3}}); s->set_registry<double>({{"x", d}}); e.register_target<int>("x"); e.register_target<int>("y"); e.register_target<double>("x"); bool extra = sym_pick("extra", 0, 1); if (extra) { e.register_target<double>("y"); e.register_target<std::string>("x"); } sym_assert(e.resolve_inputs() == !extra, "some-missing"); sym_assert(e.get_value<int>("x") == v && e.get_value<int>("y") == u, "names-apart"); sym_eq(e.get_value<double>("x"), d, "types-apart"); sym_assert(!e.resolved<double>("y") && !e.resolved<std::string>("x") && !e.resolved<int>("unasked"), "missing-unresolved"); sym_assert(e.get_failed_target_set<double>().count("y") == extra && e.get_failed_target_set<double>().size() == extra && e.get_failed_target_set<int>().empty(), "missing-named"); sym_assert(throws_any([&] { e.get_value<int>("unasked"); }), "unasked"); }
HARNESS(names) { engine e; start(e); int v = sym_int("v"), u = sym_int("u"); char k = sym_char("k"), q = sym_char("q"); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); s->set_registry<int>({{"a", v}, {"b", u}}); e.register_target<int>(std::string(1, k)); bool found = k == 'a' || k == 'b'; sym_assert(e.resolve_inputs() == found, "name-resolved"); sym_assert(e.resolved<int>(std::string(1, q)) == (found && q == k), "name-asked"); if (found) sym_assert(e.get_value<int>(std::string(1, k)) == (k == 'a' ? v : u), "name-value"); }
HARNESS(targets) { engine e; start(e); engine::target_set_t t{"a", "b"}; e.register_targets<int>(t); e.register_target<int>("a"); sym_assert(e.get_target_set<int>() == t && e.get_target_set<double>().empty(), "targets"); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); sym_assert(&e.get_hard_coded_source() == s, "source-kept"); int v = sym_int("v"); s->set_registry<int>({{"a", v}, {"b", 1}}); sym_assert(e.resolve_inputs() && e.get_value<int>("a") == v, "targets-resolved"); e.get_value<int>("a") = 5; sym_assert(e.get_value<int>("a") == 5 && e.get_value<int>("b") == 1, "value-reference"); engine other; sym_assert(other.resolved<int>("b") && other.get_value<int>("b") == 1, "registry-shared"); other.clear_registry(); sym_assert(!e.resolved<int>("a") && e.get_target_set<int>().empty() && throws_any([&] { e.get_value<int>("b"); }), "cleared"); sym_assert(e.resolve_inputs() && !e.resolved<int>("a"), "nothing-to-resolve"); }
// resolving again takes the values the sources have now
HARNESS(again) { engine e; start(e); int v = sym_int("v"), u = sym_int("u"), a = sym_int_in("a", -1000, 1000); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); s->set_registry<int>({{"i", v}}); s->set_registry<F>({{"f", coded_f(v)}}); s->set_registry<std::string>({{"s", "first text of some length"}}); e.register_target<int>("i"); e.register_target<F>("f"); e.register_target<std::string>("s"); sym_assert(e.resolve_inputs(), "again-first"); sym_assert(e.resolve_inputs() && e.get_value<int>("i") == v && e.get_value<F>("f")(a) == (a ^ v) && e.get_value<std::string>("s") == "first text of some length", "again-same"); int how = sym_pick("how", 0, 1); if (how == 0) { s->set_registry<int>({{"i", u}}); s->set_registry<F>({{"f", coded_f(u)}}); s->set_registry<std::string>({{"s", "second"}}); sym_assert(e.resolve_inputs(), "again-second"); sym_assert(e.get_value<int>("i") == u && e.get_value<std::string>("s") == "second", "again-value"); sym_assert(e.get_value<F>("f")(a) == (a ^ u), "again-function"); } else { in_lua[0] = in_lua[2] = in_lua[3] = true; e.register_lua_source(new_lua()); sym_assert(e.resolve_inputs() && e.get_value<int>("i") == LI && e.get_value<std::string>("s") == std::string(1, LC), "again-lua"); sym_assert(e.get_value<F>("f")(a) == a + 100, "again-lua-function"); e.register_lua_source(nullptr); sym_assert(!e.has_lua_source() && e.resolve_inputs() && e.get_value<int>("i") == v, "again-coded"); sym_assert(e.get_value<F>("f")(a) == (a ^ v), "again-coded-function"); } }
HARNESS(function_outlives) { F f; int a = sym_int_in("a", -1000, 1000); { engine e; start(e); in_lua[3] = true; e.register_lua_source(new_lua()); e.register_target<F>("f"); sym_assert(e.resolve_inputs(), "function-there"); f = e.get_value<F>("f"); e.clear_registry(); } sym_assert(f(a) == a + 100, "function-outlives"); }
HARNESS(instant) { engine e; start(e); int v = sym_int("v"), u = sym_int("u"), a = sym_int_in("a", -1000, 1000); bool il = sym_pick("in_lua", 0, 1), ih = sym_pick("in_hc", 0, 1), f = sym_pick("function", 0, 1); in_lua[0] = in_lua[3] = il; e.register_lua_source(new_lua()); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); if (ih) { s->set_registry<int>({{"i", v}}); s->set_registry<F>({{"f", coded_f(v)}}); } bool found = il || ih; if (!f) { if (!found) sym_assert(throws_as<std::runtime_error>([&] { e.get_instant_value<int>("i"); }), "instant-missing"); else { sym_assert(e.get_instant_value<int>("i") == (il ? LI : v), "instant-value"); if (!il) { s->set_registry<int>({{"i", u}}); sym_assert(e.get_instant_value<int>("i") == u, "instant-now"); s->clear_registry<std::tuple<int>>(); sym_assert(throws_as<std::runtime_error>([&] { e.get_instant_value<int>("i"); }), "instant-gone"); } } } else { if (!found) sym_assert(throws_as<std::runtime_error>([&] { e.get_instant_value<F>("f"); }), "instant-missing-function"); else { sym_assert(e.get_instant_value<F>("f")(a) == (il ? a + 100 : (a ^ v)), "instant-function"); if (!il) { s->set_registry<F>({{"f", coded_f(u)}}); sym_assert(e.get_instant_value<F>("f")(a) == (a ^ u), "instant-function-now"); } } } }
HARNESS(none) { engine e; start(e); sym_assert(!e.has_lua_source() && !e.has_hard_coded_source() && e.resolve_inputs(), "no-targets"); e.register_target<int>("i"); sym_assert(!e.resolve_inputs() && !e.resolved<int>("i"), "no-sources"); }
// initialization values
using S = init_val_status_t;
HARNESS(value) { engine e; start(e); int v = sym_int("v"), lo = sym_int("lo"); bool space = sym_pick("namespace", 0, 1), there = sym_pick("there", 0, 1); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); if (there) s->set_registry<int>({{space ? "ns:i" : "i", v}, {space ? "i" : "ns:i", 77}}); int runs = 0; val<int> i("i", [&](int const &x) { runs++; return x >= lo; }, space ? "ns" : ""); sym_assert(i.status() == S::registered && runs == 0 && e.get_target_set<int>().size() == 1 && e.get_target_set<int>().count(space ? "ns:i" : "i") == 1, "value-registered"); sym_assert(!i.resolved(), "value-too-early"); sym_assert(i.status() == S::registered, "value-status-kept"); sym_assert(e.resolve_inputs() == there, "value-resolve"); int how = sym_pick("how", 0, 2); bool good = v >= lo;
  if (how == 0) { sym_assert(i.resolved() == there && i.status() == (there ? S::initialized : S::registered), "value-resolved"); sym_assert(i.valid() == (there && good), "value-valid"); if (there) sym_assert(i.status() == (good ? S::valid : S::invalid) && i.valid() == good, "value-validated"); }
  else if (how == 1) sym_assert(i.valid() == (there && good), "value-valid-first");
  for (int round = 0; round < 2; round++) { int got = 0; bool t = throws_any([&] { got = i.get(); }); sym_assert(t == !(there && good), "value-get-throws"); if (!t) sym_assert(got == v && i.status() == S::valid, "value-get"); else sym_assert(i.status() == (there ? S::invalid : S::resolve_failed), "value-bad-status"); } if (there && good) { i.get() = 9; sym_assert(e.get_value<int>(space ? "ns:i" : "i") == 9, "value-reference"); } }
HARNESS(value_kinds) { engine e; start(e); double d = sym_real("d"); char c = sym_char("c"); int k = sym_int("k"), a = sym_int_in("a", -1000, 1000); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); s->set_registry<double>({{"d", d}}); s->set_registry<std::string>({{"s", std::string(3, c)}}); s->set_registry<F>({{"f", coded_f(k)}, {"g", coded_f(1)}}); val<double> vd("d"); val<std::string> vs("s"); val<F> vf("f"), vg("g", [&](F const &f) { return f(2) == 5; }), vh("h"); sym_assert(!e.resolve_inputs(), "kinds-missing"); sym_eq(vd.get(), d, "kinds-double"); sym_assert(vs.get() == std::string(3, c) && vs.valid(), "kinds-string"); sym_assert(vf.resolved() && vf.get()(a) == (a ^ k) && vf.valid() && vf.status() == S::valid, "kinds-function"); sym_assert(vg.resolved() && !vg.valid() && vg.status() == S::invalid && throws([&] { vg.get(); }), "kinds-invalid-function"); sym_assert(!vh.resolved() && !vh.valid() && throws_any([&] { vh.get(); }), "kinds-missing-function"); }
HARNESS(value_invalid) { engine e; start(e); int v = sym_int("v"), u = sym_int("u"); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); s->set_registry<int>({{"i", v}, {"j", u}}); val<int> i("i", [](int const &x) { return x > 0; }), j("j", [](int const &x) { return x < 0; }); sym_assert(e.resolve_inputs(), "both-resolved"); sym_assert(throws([&] { i.get(); }) == !(v > 0) && throws([&] { j.get(); }) == !(u < 0), "own-validator"); sym_assert(i.status() == (v > 0 ? S::valid : S::invalid) && j.status() == (u < 0 ? S::valid : S::invalid), "own-status"); }
HARNESS(status_names) { static const char *const n[] = {"unregistered", "registered", "resolve_failed", "initialized", "invalid", "valid", "unknown"}; int k = sym_pick("k", 0, 6); sym_assert(init_val_status_name((S)k) == n[k], "status-name"); }
// what is printed names the targets that were not found, and no others
template<class G> static std::string printed(G g) { std::ostringstream cap; auto *old = std::cout.rdbuf(cap.rdbuf()); g(); std::cout.rdbuf(old); return cap.str(); }
HARNESS(report) { engine e; start(e); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); static const char *const n[] = {"Qa", "Qb", "Qc", "Qd", "Qe"}; bool there[5]; for (int k = 0; k < 5; k++) there[k] = sym_pick("there", 0, 1);
  if (there[0]) s->set_registry<int>({{n[0], 1}}); if (there[1]) s->set_registry<int>({{n[1], 2}}); if (there[2]) s->set_registry<double>({{n[2], 1.5}}); if (there[3]) s->set_registry<F>({{n[3], coded_f(3)}}); if (there[4]) s->set_registry<std::string>({{n[4], "t"}});
  e.register_target<int>(n[1]); e.register_target<int>(n[0]); e.register_target<double>(n[2]); e.register_target<F>(n[3]); e.register_target<std::string>(n[4]); bool r = false; auto t = printed([&] { r = e.resolve_inputs(); }); bool all = true; for (int k = 0; k < 5; k++) { all = all && there[k]; sym_assert((t.find(n[k]) != std::string::npos) == !there[k], "missing-names-printed"); } sym_assert(r == all, "all-found"); }
HARNESS(report_again) { engine e; start(e); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); bool f = sym_pick("function", 0, 1); if (f) { e.register_target<F>("Qa"); e.register_target<F>("Qb"); } else { e.register_target<int>("Qa"); e.register_target<int>("Qb"); } auto t = printed([&] { e.resolve_inputs(); }); sym_assert(t.find("Qa") != std::string::npos && t.find("Qb") != std::string::npos, "missing-names-printed"); if (f) s->set_registry<F>({{"Qa", coded_f(1)}}); else s->set_registry<int>({{"Qa", 1}}); t = printed([&] { e.resolve_inputs(); }); sym_assert(t.find("Qb") != std::string::npos, "missing-names-printed"); sym_assert(t.find("Qa") == std::string::npos, "found-names-not-printed"); }

// a target that is no longer found is no longer there
HARNESS(gone) { engine e; start(e); int v = sym_int("v"), a = sym_int_in("a", -1000, 1000); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); s->set_registry<int>({{"i", v}}); s->set_registry<F>({{"f", coded_f(v)}}); bool lua = sym_pick("lua", 0, 1); if (lua) { in_lua[0] = in_lua[3] = true; e.register_lua_source(new_lua()); } e.register_target<int>("i"); e.register_target<F>("f"); sym_assert(e.resolve_inputs() && e.get_value<F>("f")(a) == (lua ? a + 100 : (a ^ v)), "gone-first"); if (lua) e.register_lua_source(nullptr); s->clear_registry<traits::types>(); sym_assert(!e.resolve_inputs(), "gone-unresolved"); sym_assert(!e.resolved<int>("i") && !e.resolved<F>("f"), "gone-resolved"); sym_assert(throws_any([&] { e.get_value<int>("i"); }) && throws_any([&] { e.get_value<F>("f"); }), "gone-throws"); sym_assert(e.get_target_set<int>().count("i") == 1 && e.get_failed_target_set<int>().count("i") == 1 && e.get_failed_target_set<F>().count("f") == 1, "gone-reported"); auto *t = new hard_coded_source_t; e.register_hard_coded_source(t); t->set_registry<int>({{"i", v}}); t->set_registry<F>({{"f", coded_f(v)}}); sym_assert(e.resolve_inputs() && e.get_value<int>("i") == v && e.get_value<F>("f")(a) == (a ^ v) && e.get_failed_target_set<int>().empty(), "gone-back"); }
// many targets and long names
HARNESS(many) { engine e; start(e); int v = sym_int("v"), gone = sym_pick("gone", -1, 24), a = sym_int_in("a", -1000, 1000); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); auto name = [](int i) { return std::string(17, 'n') + char('A' + i); }; hard_coded_source_t::registry<int> r; hard_coded_source_t::registry<F> rf; for (int i = 0; i < 24; i++) { if (i != gone) r[name(i)] = i == 9 ? v : 100 + i; if (i != gone && i < 15) rf[name(i)] = coded_f(i); e.register_target<int>(name(i)); if (i < 15) e.register_target<F>(name(i)); } s->set_registry<int>(r); s->set_registry<F>(rf); bool all = gone < 0 || gone == 24; sym_assert(e.resolve_inputs() == all, "many-resolved"); for (int i = 0; i < 24; i++) { sym_assert(e.resolved<int>(name(i)) == (i != gone), "many-there"); if (i != gone) sym_assert(e.get_value<int>(name(i)) == (i == 9 ? v : 100 + i), "many-value"); if (i < 15) { sym_assert(e.resolved<F>(name(i)) == (i != gone), "many-functions"); if (i != gone) sym_assert(e.get_value<F>(name(i))(a) == (a ^ i), "many-function-value"); } } sym_assert(!e.resolved<int>(std::string(17, 'n')) && !e.resolved<int>(name(0) + "x"), "many-others"); }
HARNESS(zero) { engine e; start(e); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); bool il = sym_pick("in_lua", 0, 1); int h = sym_int("h"); if (il) { in_lua[0] = in_lua[1] = true; LI = 0; LD = 0; e.register_lua_source(new_lua()); } s->set_registry<int>({{"i", il ? h : 0}}); s->set_registry<double>({{"d", il ? 5.0 : 0.0}}); s->set_registry<std::string>({{"s", ""}}); e.register_target<int>("i"); e.register_target<double>("d"); e.register_target<std::string>("s"); sym_assert(e.resolve_inputs() && e.resolved<int>("i") && e.resolved<double>("d") && e.resolved<std::string>("s"), "zero-resolved"); sym_assert(e.get_value<int>("i") == 0 && e.get_value<double>("d") == 0 && e.get_value<std::string>("s").empty(), "zero-value"); sym_assert(e.get_instant_value<int>("i") == 0 && e.get_instant_value<std::string>("s").empty(), "zero-instant"); val<int> i("i"); sym_assert(i.get() == 0 && i.valid(), "zero-init-value"); }
HARNESS(long_value_names) { engine e; start(e); int v = sym_int("v"), u = sym_int("u"); std::string ns(30, 's'), nm(40, 'm'); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); s->set_registry<int>({{ns + ":" + nm, v}, {nm, u}, {ns + nm, 3}}); val<int> i(nm, [](int const &) { return true; }, ns), j(nm); sym_assert(e.get_target_set<int>().count(ns + ":" + nm) == 1 && e.get_target_set<int>().count(nm) == 1 && e.get_target_set<int>().size() == 2, "long-targets"); sym_assert(e.resolve_inputs() && i.get() == v && j.get() == u, "long-values"); }
HARNESS(wide_values) { engine e; start(e); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); int n = sym_pick("n", 0, 1) ? 60 : 17; std::vector<int> l(n, 4); l[n - 1] = sym_int("e"); std::string t(n, 't'); t[n - 1] = sym_char("c"); s->set_registry<std::vector<int>>({{"v", l}}); s->set_registry<std::string>({{"s", t}}); e.register_target<std::vector<int>>("v"); e.register_target<std::string>("s"); sym_assert(e.resolve_inputs() && e.get_value<std::vector<int>>("v") == l && e.get_value<std::string>("s") == t, "wide-values"); auto w = e.get_instant_value<std::vector<int>>("v"); sym_assert(w == l, "wide-instant"); }

HARNESS(many_at_once) { engine e; start(e); auto *s = new hard_coded_source_t; e.register_hard_coded_source(s); int v = sym_int("v"), gone = sym_pick("gone", 0, 20); auto name = [](int i) { return std::string(1, char('A' + i)); }; hard_coded_source_t::registry<int> r; engine::target_set_t names; for (int i = 0; i < 20; i++) { if (i != gone) r[name(i)] = (v ^ (i & 3)); names.insert(name(i)); } s->set_registry<int>(r); e.register_targets<int>(names); sym_assert(names.size() == 20, "names-kept"); sym_assert(e.resolve_inputs() == (gone == 20), "together-resolved"); for (int i = 0; i < 20; i++) { sym_assert(e.resolved<int>(name(i)) == (i != gone), "together-there"); if (i != gone) sym_assert(e.get_value<int>(name(i)) == (v ^ (i & 3)), "together-value"); } }
