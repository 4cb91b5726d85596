// Sources of input values: hard-coded registries, Lua files, and input_t.
#include "lua_common.h"
#include <ristra/initialization/input_source.h>
#include <ristra/initialization/input.h>
using namespace ristra;
using F = std::function<int(int)>; using arr = std::array<int, 2>; using arrd = std::array<double, 2>;
template<class T> using reg = hard_coded_source_t::registry<T>;
template<class F_> static bool throws_any(F_ f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static void wipe(hard_coded_source_t &s) { s.clear_registry<std::tuple<int, double, std::string, F, std::vector<int>>>(); }
HARNESS(coded_values) { hard_coded_source_t s; wipe(s); int v = sym_int("v"), u = sym_int("u"), d = sym_int("d"); char k = sym_char("k"); s.set_registry<int>({{"a", v}, {"b", u}}); for (int round = 0; round < 2; round++) { int t = d; bool ok = s.get_value(std::string(1, k), t); sym_assert(ok == (k == 'a' || k == 'b'), "coded-found"); sym_assert(t == (k == 'a' ? v : k == 'b' ? u : d), "coded-value"); } }
HARNESS(coded_types) { hard_coded_source_t s; wipe(s); int v = sym_int("v"); double d = sym_real("d"); s.set_registry<int>({{"x", v}}); s.set_registry<double>({{"x", d}, {"y", 1}}); int i = 5; double e = 0; std::string z = "z"; sym_assert(s.get_value("x", i) && i == v, "coded-int"); sym_assert(s.get_value("x", e), "coded-double"); sym_eq(e, d, "coded-double-value"); sym_assert(!s.get_value("x", z) && z == "z" && !s.get_value("y", i) && i == v, "coded-types-apart"); sym_assert(s.get_registry<int>().size() == 1 && s.get_registry<double>().size() == 2, "coded-registry"); }
HARNESS(coded_merge) { hard_coded_source_t s, other; wipe(s); int v = sym_int("v"), u = sym_int("u"), w = sym_int("w"); s.set_registry<int>({{"a", v}, {"b", v}}); other.set_registry<int>({{"b", u}, {"c", w}}); int a = 0, b = 0, c = 0; sym_assert(s.get_value("a", a) && s.get_value("b", b) && s.get_value("c", c), "merged"); sym_assert(a == v && b == u && c == w, "merged-values"); s.set_registry<double>({{"a", 1}}); s.clear_registry<std::tuple<int>>(); double e; sym_assert(!s.get_value("a", a) && s.get_value("a", e), "cleared-one-type"); s.set_registry<int>({{"a", v}}); s.set_registry<std::string>({{"a", "x"}}); s.clear_registry<std::tuple<int, double>>(); std::string z; sym_assert(!s.get_value("a", a) && !s.get_value("a", e) && s.get_value("a", z), "cleared-several-types"); }
// a value that was read once can be read again
HARNESS(coded_again) { auto s = mk_hard_coded_source(); wipe(*s); char c = sym_char("c"); int v = sym_int("v"); std::string text(20, c); s->set_registry<std::string>({{"s", text}, {"t", "x"}}); s->set_registry<std::vector<int>>({{"l", {v, 2}}}); s->set_registry<F>({{"f", [v](int a) { return a ^ v; }}}); int q = sym_int("q"); for (int round = 0; round < 3; round++) { std::string a = "old"; sym_assert(s->get_value("s", a) && a == text, "coded-string"); std::vector<int> l; sym_assert(s->get_value("l", l) && l.size() == 2 && l[0] == v && l[1] == 2, "coded-vector"); F f; sym_assert(s->get_value("f", f) && f, "coded-function"); if (f) sym_assert(f(q) == (q ^ v), "coded-function-value"); sym_assert(s->get_registry<std::string>()["s"] == text, "coded-kept"); } }
// a Lua file: every named input comes from its place in the tables, when it is there
static int I[8]; static double D[8]; static char C[8]; static bool there[16];
static int fn_plus(lua_State *L) { lua_pushinteger(L, lua_tointeger(L, 1) + I[7]); return 1; }
static void field(lua_State *L, const char *k) { lua_setfield(L, -2, k); }
static int file(lua_State *L) { lua_newtable(L); if (there[0]) { lua_pushlstring(L, &C[0], 1); field(L, "prefix"); } if (there[1]) { lua_pushlstring(L, &C[1], 1); field(L, "postfix"); } if (there[2]) { lua_pushinteger(L, I[0]); field(L, "output_freq"); } if (there[3]) { lua_pushnumber(L, D[0]); field(L, "CFL"); } if (there[4]) { lua_pushnumber(L, D[1]); field(L, "final_time"); } if (there[5]) { lua_pushinteger(L, I[1]); field(L, "max_steps"); } if (there[6]) { lua_pushcfunction(L, fn_plus); field(L, "ics"); }
  lua_newtable(L); if (there[7]) { lua_pushlstring(L, &C[2], 1); field(L, "type"); } if (there[8]) { lua_newtable(L); for (int i = 0; i < 2; i++) { lua_pushinteger(L, I[2 + i]); lua_rawseti(L, -2, i + 1); } field(L, "dimensions"); } if (there[9]) { lua_newtable(L); for (int i = 0; i < 2; i++) { lua_pushnumber(L, D[2 + i]); lua_rawseti(L, -2, i + 1); } field(L, "xmin"); } if (there[10]) { lua_newtable(L); for (int i = 0; i < 2; i++) { lua_pushnumber(L, D[4 + i]); lua_rawseti(L, -2, i + 1); } field(L, "xmax"); } if (there[11]) { lua_pushlstring(L, &C[3], 1); field(L, "file"); } field(L, "mesh");
  lua_newtable(L); lua_pushinteger(L, I[4]); field(L, "k"); lua_pushinteger(L, I[5]); field(L, "q"); field(L, "eos"); lua_setglobal(L, "hydro");
  lua_newtable(L); lua_pushinteger(L, I[6]); field(L, "k"); lua_newtable(L); lua_pushinteger(L, I[5]); field(L, "k"); field(L, "eos"); lua_setglobal(L, "extra"); lua_pushinteger(L, I[3]); lua_setglobal(L, "CFL"); return 0; }
static void fill(bool all) { for (int i = 0; i < 8; i++) { I[i] = sym_int("i"); D[i] = sym_real("d"); C[i] = sym_char("c"); } for (int i = 0; i < 16; i++) there[i] = all; chunk_fn = file; chunk_status = LUA_OK; }
template<class T> static bool get(lua_source_t &s, const char *k, T &t) { return s.get_value<T>(k, t); }
static std::string chr(int i) { return std::string(1, C[i]); }
HARNESS(lua_strings) { fill(false); static const char *const keys[] = {"prefix", "suffix", "mesh_type", "file"}; static const int flag[] = {0, 1, 7, 11}; int k = sym_pick("k", 0, 3); bool in = sym_pick("there", 0, 1); for (int i = 0; i < 4; i++) there[flag[i]] = (i == k) == in; lua_source_t s("f.lua"); sym_assert(chunk_name == "f.lua", "file-name"); for (int round = 0; round < 2; round++) { std::string t = "old"; bool ok = get(s, keys[k], t); sym_assert(ok == in && t == (in ? chr(k) : "old"), "lua-string"); } }
HARNESS(lua_numbers) { fill(false); int k = sym_pick("k", 0, 3); bool in = sym_pick("there", 0, 1); for (int i = 0; i < 4; i++) there[2 + i] = (i == k) == in; auto s = mk_lua("f.lua"); if (k == 0 || k == 3) { int t = -7; bool ok = get(*s, k ? "max_steps" : "output_freq", t); sym_assert(ok == in && t == (in ? I[k != 0] : -7), "lua-integer"); } else { double t = -7; bool ok = get(*s, k == 1 ? "CFL" : "final_time", t); sym_assert(ok == in, "lua-real-found"); sym_eq(t, in ? D[k - 1] : -7.0, "lua-real"); } }
HARNESS(lua_arrays) { fill(false); int k = sym_pick("k", 0, 2); bool in = sym_pick("there", 0, 1); for (int i = 0; i < 3; i++) there[8 + i] = (i == k) == in; lua_source_t s("f.lua"); if (k == 0) { arr t{{8, 9}}; bool ok = get(s, "dimensions", t); sym_assert(ok == in && t[0] == (in ? I[2] : 8) && t[1] == (in ? I[3] : 9), "lua-array"); if (in) sym_assert(s.get_size("dimensions") == 2, "lua-size"); else sym_assert(s.get_size("dimensions") == 0, "lua-size-missing"); } else { arrd t{{8, 9}}; bool ok = get(s, k == 1 ? "xmin" : "xmax", t); sym_assert(ok == in, "lua-array-found"); sym_eq(t[0], in ? D[2 * k] : 8.0, "lua-array-first"); sym_eq(t[1], in ? D[2 * k + 1] : 9.0, "lua-array-second"); } }
HARNESS(lua_function) { fill(false); there[6] = sym_pick("there", 0, 1); sym_assume(I[7] > -1000000 && I[7] < 1000000); int a = sym_int_in("a", -1000000, 1000000); embedded::lua_result_uptr_t p, q; { lua_source_t s("f.lua"); sym_assert(s.get_value("ics_func", p) == there[6] && s.get_value("ics_func", q) == there[6] && (p != nullptr) == there[6], "lua-function-found"); auto raw = s.get_lua_result_raw("ics_func"); sym_assert(raw.first == there[6] && raw.second.empty() == !there[6], "lua-raw"); if (raw.first) sym_assert(raw.second(a).as<int>() == a + I[7], "lua-raw-call"); } if (there[6]) sym_assert((*p)(a).as<int>() == a + I[7] && (*q)(1).as<int>() == 1 + I[7], "lua-function-outlives"); }
HARNESS(lua_register_value) { fill(true); lua_source_t s("f.lua"); int t = 0; sym_assert(!s.register_value("steps", "hydro", "max_steps"), "register-new"); sym_assert(get(s, "steps", t) && t == I[1], "registered-value"); sym_assert(!s.register_value("size", "mesh", "dimensions") && s.get_size("size") == 2, "registered-size"); sym_assert(s.register_value("CFL", "hydro", "output_freq"), "register-again"); sym_assert(get(s, "CFL", t) && t == I[0], "registered-again"); sym_assert(get(s, "max_steps", t) && t == I[1], "others-kept"); std::string z; sym_assert(s.register_value("suffix", "hydro", "prefix") && get(s, "suffix", z) && z == chr(0), "registered-other-key"); sym_assert(s.register_value("suffix", "mesh", "file") && get(s, "suffix", z) && z == chr(3), "registered-other-table"); double d; sym_assert(!s.register_value("final", "hydro", "final_time") && get(s, "final", d), "register-new"); sym_eq(d, D[1], "registered-real"); }
HARNESS(lua_register_table) { fill(true); lua_source_t s("f.lua"); int where = sym_pick("where", 0, 2), t = 0; if (where == 0) { sym_assert(!s.register_table("extra"), "table-new"); s.register_value("k", "extra"); sym_assert(get(s, "k", t) && t == I[6], "table-global"); sym_assert(s.get_table("extra")["k"].as<int>() == I[6], "table-direct"); } else if (where == 1) { sym_assert(!s.register_table("eos", "hydro"), "table-new"); s.register_value("k", "eos"); s.register_value("other", "eos", "q"); sym_assert(get(s, "k", t) && t == I[4] && get(s, "other", t) && t == I[5], "table-inner"); } else { sym_assert(!s.register_table("equations", "hydro", "eos"), "table-new"); s.register_value("k", "equations"); sym_assert(get(s, "k", t) && t == I[4], "table-other-name"); sym_assert(s.get_table("equations")["q"].as<int>() == I[5], "table-direct"); } }
HARNESS(lua_replace_table) { fill(true); lua_source_t s("f.lua"); s.register_table("extra"); int t = 0; sym_assert(!s.register_table("eos", "hydro"), "table-new"); s.register_value("k", "eos"); sym_assert(get(s, "k", t) && t == I[4], "table-first"); sym_assert(s.register_table("eos", "extra"), "table-displaced"); sym_assert(get(s, "k", t) && t == I[5], "table-replaced"); }
HARNESS(lua_failures) { fill(true); int k = sym_pick("k", 0, 8); if (k == 0) { chunk_status = LUA_ERRFILE; sym_assert(throws([] { lua_source_t s("f.lua"); }), "no-file"); return; } if (k == 1) { chunk_fn = nothing; sym_assert(throws([] { lua_source_t s("f.lua"); }), "no-tables"); return; } lua_source_t s("f.lua"); int t = 3; if (k == 2) sym_assert(throws([&] { s.register_table("nowhere"); }), "no-table"); else if (k == 3) sym_assert(throws_any([&] { s.register_table("eos", "nowhere"); }), "no-parent"); else if (k == 4) sym_assert(throws_any([&] { get(s, "unknown", t); }) && t == 3, "unknown-key"); else if (k == 5) sym_assert(throws_any([&] { s.get_size("unknown"); }), "unknown-size"); else if (k == 6) sym_assert(throws_any([&] { s.get_table("unknown"); }), "unknown-table"); else if (k == 7) sym_assert(throws([&] { get(s, "dimensions", t); }) && t == 3, "wrong-type"); else { s.register_value("x", "nowhere"); sym_assert(throws_any([&] { get(s, "x", t); }) && t == 3, "value-in-no-table"); } }
// two sources do not share anything
HARNESS(lua_apart) { fill(true); lua_source_t s("f.lua"); int old = I[1]; I[1] = sym_int("other"); lua_source_t r("g.lua"); s.register_value("steps", "hydro", "max_steps"); int t = 0, u = 0; sym_assert(get(s, "max_steps", t) && get(r, "max_steps", u) && t == old && u == I[1], "sources-apart"); sym_assert(throws_any([&] { get(r, "steps", t); }), "registrations-apart"); }
// input_t
static int globals(lua_State *L) { lua_pushinteger(L, I[0]); lua_setglobal(L, "one"); lua_newtable(L); lua_pushinteger(L, I[1]); field(L, "k"); lua_setglobal(L, "tab"); return 0; }
HARNESS(input) { I[0] = sym_int("v"); I[1] = sym_int("u"); chunk_fn = globals; chunk_status = LUA_OK; auto &in = initialization::input_t::instance(); in.load("in.lua"); sym_assert(chunk_name == "in.lua" && in.filename() == "in.lua" && &initialization::input_t::instance() == &in, "input-file"); sym_assert(in["one"].as<int>() == I[0] && in["tab"]["k"].as<int>() == I[1] && in["none"].empty(), "input-value"); sym_assert(in.try_access("one").as<int>() == I[0] && throws([&] { in.try_access("none"); }), "input-try"); int t = 0; sym_assert(!throws([&] { t = inputs_try_access_as(in, "one", int); }) && t == I[0], "input-try-as"); sym_assert(throws([&] { t = inputs_try_access_as(in, "none", int); }) && throws([&] { auto r = inputs_try_access(in, "none"); }), "input-try-missing"); auto tab = inputs_try_access(in, "tab"); sym_assert(tab["k"].as<int>() == I[1], "input-try-table"); sym_assert(in.register_group("g", "title") && in.register_parameter("g", "v", "message", std::string("x")) && in.register_parameter("g", "w", "message", 2.5), "input-register"); sym_assert(in["one"].as<int>() == I[0], "input-kept"); }
HARNESS(input_fails) { I[0] = sym_int("v"); I[1] = 0; chunk_fn = globals; chunk_status = LUA_OK; auto &in = initialization::input_t::instance(); in.load("in.lua"); chunk_status = LUA_ERRFILE; sym_assert(throws([&] { in.load("gone.lua"); }), "input-no-file"); sym_assert(in["one"].as<int>() == I[0] && in.filename() == "in.lua", "input-after-failure"); }
// many entries and long names
HARNESS(coded_many) { hard_coded_source_t s; wipe(s); int n = sym_pick("n", 0, 1) ? 40 : 11, at = sym_pick("at", 0, 10), v = sym_int("v"), d = sym_int("d"); reg<int> r; for (int i = 0; i < n; i++) r[std::string(20, 'n') + char('A' + i)] = i == at ? v : 5000 + i; s.set_registry<int>(r); for (int i = 0; i < n + 2; i++) { int t = d; bool ok = s.get_value(std::string(20, 'n') + char('A' + i), t); sym_assert(ok == (i < n) && t == (i >= n ? d : i == at ? v : 5000 + i), "many-coded"); } int t = d; sym_assert(!s.get_value(std::string(20, 'n'), t) && !s.get_value(std::string(20, 'n') + "AB", t) && !s.get_value("", t) && t == d, "many-coded-others"); s.set_registry<int>({{std::string(20, 'n') + "C", d}}); sym_assert(s.get_value(std::string(20, 'n') + "C", t) && t == d && s.get_registry<int>().size() == (size_t)n, "many-coded-again"); }
HARNESS(coded_falsy) { hard_coded_source_t s; wipe(s); s.set_registry<int>({{"z", 0}}); s.set_registry<double>({{"z", 0.0}}); s.set_registry<std::string>({{"z", ""}}); s.set_registry<std::vector<int>>({{"z", {}}}); int i = 5; double d = 5; std::string t = "t"; std::vector<int> v{1, 2}; sym_assert(s.get_value("z", i) && i == 0 && s.get_value("z", d) && d == 0 && s.get_value("z", t) && t.empty() && s.get_value("z", v) && v.empty(), "coded-zero"); }
static int I_n; static std::string *I_text;
static int file_long(lua_State *L) { lua_newtable(L); lua_newtable(L); field(L, "mesh"); lua_pushlstring(L, I_text->data(), I_text->size()); field(L, "prefix"); lua_pushinteger(L, 0); field(L, "max_steps"); lua_pushnumber(L, 0); field(L, "CFL"); lua_newtable(L); for (int i = 0; i < I_n; i++) { lua_pushinteger(L, i == I_n - 1 ? I[0] : 3 * i); lua_rawseti(L, -2, i + 1); } field(L, "list"); lua_pushlstring(L, "", 0); field(L, "postfix"); for (int i = 0; i < 20; i++) { lua_pushinteger(L, 100 + i); field(L, (std::string(18, 'q') + char('a' + i)).c_str()); } lua_setglobal(L, "hydro"); return 0; }
HARNESS(lua_long) { I[0] = sym_int("v"); static const int sizes[] = {15, 16, 40, 200}; int n = sizes[sym_pick("n", 0, 3)]; std::string text(n, 't'); text[0] = sym_char("c"); text[n - 1] = sym_char("c"); I_text = &text; I_n = n; chunk_fn = file_long; chunk_status = LUA_OK; lua_source_t s("some/longer/name/of/a/file.lua"); sym_assert(chunk_name == "some/longer/name/of/a/file.lua", "file-name"); std::string t = "old", z = "old"; sym_assert(get(s, "prefix", t) && t == text, "lua-long-string"); sym_assert(get(s, "suffix", z) && z.empty(), "lua-empty-string"); int i = 4; double d = 4; sym_assert(get(s, "max_steps", i) && i == 0 && get(s, "CFL", d) && d == 0, "lua-zero"); s.register_value("list", "hydro"); std::vector<int> l; sym_assert(s.get_size("list") == (size_t)n && get(s, "list", l) && l.size() == (size_t)n, "lua-long-list"); for (int k = 0; k < n; k++) sym_assert(l[k] == (k == n - 1 ? I[0] : 3 * k), "lua-long-list-value"); }
HARNESS(lua_many) { std::string text; I_text = &text; I_n = 1; chunk_fn = file_long; chunk_status = LUA_OK; lua_source_t s("f.lua"); for (int i = 0; i < 20; i++) sym_assert(!s.register_value("name_of_some_length_" + std::to_string(i), "hydro", std::string(18, 'q') + char('a' + (i * 7) % 20)), "many-registered"); for (int i = 0; i < 20; i++) { int t = 0; sym_assert(get(s, ("name_of_some_length_" + std::to_string(i)).c_str(), t) && t == 100 + (i * 7) % 20, "many-registered-value"); } }
