// Access to globals and tables, calls, references and lifetimes.
#include "lua_common.h"
#include <sstream>
struct world { lua_t lua; lua_State *L; world(bool libs = false) : lua(libs), L(lua.state()) {} };
enum { NIL, BOOL, FUNC, WORD, INT, REAL, TABLE };
static void push_kind(lua_State *L, int kind) { switch (kind) { case NIL: lua_pushnil(L); break; case BOOL: lua_pushboolean(L, 1); break; case TABLE: lua_newtable(L); break; case FUNC: lua_pushcfunction(L, nothing); break; case WORD: lua_pushstring(L, "word"); break; case INT: lua_pushinteger(L, 5); break; default: lua_pushnumber(L, 2.5); } }
// globals
HARNESS(global) { world w; bystanders b(w.L); int v = sym_int("v"), u = sym_int("u"); lua_pushinteger(w.L, v); lua_setglobal(w.L, "one"); lua_pushinteger(w.L, u); lua_setglobal(w.L, "two"); auto r = w.lua["one"], s = w.lua["two"], t = w.lua["three"]; sym_assert(!r.empty() && !s.empty() && t.empty(), "global-there"); sym_assert(r.as<int>() == v && s.as<int>() == u, "global-value"); sym_assert(r.name() == "one" && t.name() == "three", "global-name"); sym_assert(throws([&] { (void)t.as<int>(); }), "global-missing"); b.check("global-stack"); }
HARNESS(global_latest) { world w; bystanders b(w.L); int v = sym_int("v"), u = sym_int("u"); lua_pushinteger(w.L, v); lua_setglobal(w.L, "x"); auto r = w.lua["x"]; lua_pushinteger(w.L, u); lua_setglobal(w.L, "x"); auto s = w.lua["x"]; sym_assert(s.as<int>() == u, "global-latest"); sym_assert(r.as<int>() == v, "reference-keeps-value"); b.check("global-stack"); }
HARNESS(try_access) { world w; bystanders b(w.L); int v = sym_int("v"); bool there = sym_pick("there", 0, 1), global = sym_pick("global", 0, 1); lua_newtable(w.L); if (there && !global) { lua_pushinteger(w.L, v); lua_setfield(w.L, -2, "k"); } lua_setglobal(w.L, "t"); if (there && global) { lua_pushinteger(w.L, v); lua_setglobal(w.L, "k"); } int got = 0; bool t1, t2; if (global) { t1 = throws([&] { got = lua_try_access_as(w.lua, "k", int); }); t2 = throws([&] { auto r = lua_try_access(w.lua, "k"); sym_assert(r.as<int>() == v, "try-access-value"); }); } else { auto t = w.lua["t"]; t1 = throws([&] { got = lua_try_access_as(t, "k", int); }); t2 = throws([&] { auto r = lua_try_access(t, "k"); sym_assert(r.as<int>() == v, "try-access-value"); }); } sym_assert(t1 == !there && t2 == !there, "try-access-missing"); if (there) sym_assert(got == v, "try-access-as"); b.check("try-access-stack"); }
// tables
HARNESS(table_key) { world w; bystanders b(w.L); int v = sym_int("v"), u = sym_int("u"); char c = sym_char("c"), d = sym_char("d"); std::string k(1, c), q(1, d); lua_newtable(w.L); lua_pushlstring(w.L, &c, 1); lua_pushinteger(w.L, v); lua_rawset(w.L, -3); lua_pushinteger(w.L, u); lua_rawseti(w.L, -2, 1); lua_setglobal(w.L, "t"); auto t = w.lua["t"]; auto r = t[q]; sym_assert(r.empty() == (c != d), "key-there"); if (c == d) sym_assert(r.as<int>() == v, "key-value"); sym_assert(t[1].as<int>() == u && t.size() == 1, "key-and-index"); b.check("key-stack"); }
HARNESS(table_index) { world w; bystanders b(w.L); int n = sym_pick("n", 0, 3), i = sym_int_in("i", -2, 9); std::vector<int> v; lua_newtable(w.L); for (int k = 0; k < n; k++) { v.push_back(sym_int("e")); lua_pushinteger(w.L, v[k]); lua_rawseti(w.L, -2, k + 1); } lua_setglobal(w.L, "t"); auto t = w.lua["t"]; sym_assert(t.size() == (size_t)n, "table-size"); auto r = t[i]; bool in = i >= 1 && i <= n; sym_assert(r.empty() == !in, "index-there"); if (in) sym_assert(r.as<int>() == v[i - 1], "index-value"); b.check("index-stack"); }
HARNESS(table_nested) { world w; bystanders b(w.L); int v = sym_int_in("v", -1000000, 1000000), n = sym_pick("n", 1, 3); lua_newtable(w.L); lua_newtable(w.L); for (int i = 1; i <= n; i++) { lua_pushinteger(w.L, v + i); lua_rawseti(w.L, -2, i); } lua_setfield(w.L, -2, "in"); lua_newtable(w.L); lua_pushstring(w.L, "deep"); lua_setfield(w.L, -2, "s"); lua_rawseti(w.L, -2, 7); lua_setglobal(w.L, "t"); sym_assert(w.lua["t"]["in"][n].as<int>() == v + n, "nested-index"); sym_assert(w.lua["t"]["in"].size() == (size_t)n, "nested-size"); sym_assert(w.lua["t"][7]["s"].as<std::string>() == "deep" && w.lua["t"][7]["s"].size() == 4, "nested-key"); sym_assert(w.lua["t"]["in"].as<std::vector<int>>().size() == (size_t)n, "nested-vector"); auto t = w.lua["t"]; auto a = t["in"], c = a[1]; sym_assert(c.as<int>() == v + 1 && t[7]["s"].as<std::string>() == "deep", "nested-kept"); sym_assert(t["in"][n + 1].empty() && t["no"].empty(), "nested-missing"); b.check("nested-stack"); }
HARNESS(not_a_table) { world w; bystanders b(w.L); int k = sym_pick("kind", 0, 5); push_kind(w.L, k); lua_setglobal(w.L, "x"); auto r = w.lua["x"]; sym_assert(throws([&] { auto q = r["k"]; }), "key-of-non-table"); b.check("key-of-non-table-stack"); sym_assert(throws([&] { auto q = r[1]; }), "index-of-non-table"); b.check("index-of-non-table-stack"); }
// calls: arguments
static int seen_n, seen_type[8]; static long long seen_i[8]; static double seen_d[8]; static int seen_b[8]; static char seen_s[8][4]; static size_t seen_len[8]; static int calls;
static int record(lua_State *L) { calls++; seen_n = lua_gettop(L); for (int i = 0; i < seen_n && i < 8; i++) { seen_type[i] = lua_type(L, i + 1); if (lua_isinteger(L, i + 1)) { seen_i[i] = lua_tointeger(L, i + 1); seen_type[i] = 100; } else if (seen_type[i] == LUA_TNUMBER) seen_d[i] = lua_tonumber(L, i + 1); seen_b[i] = lua_toboolean(L, i + 1); if (seen_type[i] == LUA_TSTRING) { size_t n; const char *p = lua_tolstring(L, i + 1, &n); seen_len[i] = n; for (size_t j = 0; j < n && j < 4; j++) seen_s[i][j] = p[j]; } } lua_pushinteger(L, 1); return 1; }
static void def(lua_State *L, const char *n, lua_CFunction f) { lua_pushcfunction(L, f); lua_setglobal(L, n); }
HARNESS(arguments_integers) { world w; bystanders b(w.L); calls = 0; def(w.L, "f", record); int a = sym_int("a"); size_t z = (size_t)sym_long("z"); long long l = sym_long("l"); auto f = w.lua["f"]; auto r = f(a, z, l); sym_assert(calls == 1 && seen_n == 3 && seen_type[0] == 100 && seen_type[1] == 100 && seen_type[2] == 100, "argument-types"); sym_assert(seen_i[0] == a && seen_i[1] == (long long)z && seen_i[2] == l, "argument-values"); sym_assert(r.as<int>() == 1, "call-result"); b.check("call-stack"); }
HARNESS(arguments_reals) { world w; bystanders b(w.L); calls = 0; def(w.L, "f", record); double d = sym_real("d"); float e = sym_real("e"); bool t = sym_bool("t"); w.lua["f"](d, t, e); sym_assert(calls == 1 && seen_n == 3 && seen_type[0] == LUA_TNUMBER && seen_type[1] == LUA_TBOOLEAN && seen_type[2] == LUA_TNUMBER, "argument-types"); sym_eq(seen_d[0], d, "argument-double"); sym_eq(seen_d[2], e, "argument-float"); sym_assert(seen_b[1] == t, "argument-bool"); b.check("call-stack"); }
HARNESS(arguments_strings) { world w; bystanders b(w.L); calls = 0; def(w.L, "f", record); int n = sym_pick("n", 0, 3); std::string s; for (int i = 0; i < n; i++) s.push_back(sym_char("c")); w.lua["f"](s, "lit"); sym_assert(calls == 1 && seen_n == 2 && seen_type[0] == LUA_TSTRING && seen_type[1] == LUA_TSTRING, "argument-types"); bool ok = seen_len[0] == (size_t)n && seen_len[1] == 3 && seen_s[1][0] == 'l' && seen_s[1][1] == 'i' && seen_s[1][2] == 't'; for (int i = 0; i < n; i++) ok = ok && seen_s[0][i] == s[i]; sym_assert(ok, "argument-string"); b.check("call-stack"); }
HARNESS(arguments_array) { world w; bystanders b(w.L); calls = 0; def(w.L, "f", record); std::array<double, 3> x{sym_real("x"), sym_real("y"), sym_real("z")}; double t = sym_real("t"); int k = sym_int("k"); bool first = sym_pick("first", 0, 1); if (first) w.lua["f"](x, t, k); else w.lua["f"](k, x, t); sym_assert(calls == 1 && seen_n == 5 && seen_type[first ? 4 : 0] == 100 && seen_i[first ? 4 : 0] == k, "argument-types"); int o = !first; for (int i = 0; i < 3; i++) sym_eq(seen_d[o + i], x[i], "argument-array"); sym_eq(seen_d[o + 3], t, "argument-after-array"); b.check("call-stack"); }
HARNESS(arguments_none) { world w; bystanders b(w.L); calls = 0; seen_n = 9; lua_newtable(w.L); lua_pushcfunction(w.L, record); lua_setfield(w.L, -2, "f"); lua_setglobal(w.L, "t"); sym_assert(w.lua["t"]["f"]().as<int>() == 1 && calls == 1 && seen_n == 0, "call-member"); b.check("call-stack"); }
// more arguments than the free room Lua guarantees
static int sum_n; static double sum_at[64]; static int record_many(lua_State *L) { calls++; sum_n = lua_gettop(L); for (int i = 0; i < sum_n && i < 64; i++) sum_at[i] = lua_tonumber(L, i + 1); lua_pushinteger(L, 1); return 1; }
HARNESS(arguments_many) { world w; bystanders b(w.L); calls = 0; sum_n = 0; def(w.L, "f", record_many); std::array<double, 40> x; for (int i = 0; i < 40; i++) x[i] = sym_real("x"); double t = sym_real("t"); w.lua["f"](t, x, 3); sym_assert(calls == 1 && sum_n == 42, "many-arguments"); sym_eq(sum_at[0], t, "many-first"); for (int i = 0; i < 40; i++) sym_eq(sum_at[1 + i], x[i], "many-array"); sym_eq(sum_at[41], 3.0, "many-last"); b.check("call-stack"); }
HARNESS(arguments_separate) { world w; bystanders b(w.L); calls = 0; sum_n = 0; def(w.L, "f", record_many); int a = sym_int_in("a", -1000, 1000); w.lua["f"](1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, a, 26); sym_assert(calls == 1 && sum_n == 26, "many-arguments"); for (int i = 0; i < 26; i++) sym_eq(sum_at[i], i == 24 ? (double)a : i + 1.0, "many-values"); b.check("call-stack"); }
// calls: results
static int res_n; static long long res_i[4]; static double res_d; static bool res_fail;
static int answer(lua_State *L) { if (res_fail) { lua_pushstring(L, "broken"); return lua_error(L); } lua_pushinteger(L, 999); for (int i = 0; i < res_n; i++) lua_pushinteger(L, res_i[i]); return res_n; }
HARNESS(results) { world w; bystanders b(w.L); res_fail = false; def(w.L, "f", answer); res_n = sym_pick("n", 1, 3); for (int i = 0; i < res_n; i++) res_i[i] = sym_int("e"); auto r = w.lua["f"](7); sym_assert(r.size() == (size_t)res_n && !r.empty(), "result-count"); b.check("call-stack"); int one = 0; bool t1 = throws([&] { one = r.as<int>(); }); sym_assert(t1 == (res_n != 1), "one-result"); if (!t1) sym_assert(one == res_i[0], "one-result-value"); std::tuple<int, int> two; bool t2 = throws([&] { two = r.as<int, int>(); }); sym_assert(t2 == (res_n != 2), "two-results"); if (!t2) sym_assert(std::get<0>(two) == res_i[0] && std::get<1>(two) == res_i[1], "two-result-values"); std::tuple<int, long long, size_t> three; res_n == 3 ? (void)0 : (void)0; bool t3 = throws([&] { three = r.as<std::tuple<int, long long, int>>(); }); sym_assert(t3 == (res_n != 3), "three-results"); if (!t3) sym_assert(std::get<0>(three) == res_i[0] && std::get<1>(three) == res_i[1] && (int)std::get<2>(three) == res_i[2], "three-result-values"); b.check("results-stack"); auto again = r; sym_assert(again.size() == r.size(), "result-copy"); }
static int mixed(lua_State *L) { lua_pushnumber(L, res_d); lua_newtable(L); lua_pushnumber(L, res_d); lua_rawseti(L, -2, 1); lua_pushinteger(L, res_i[0]); lua_rawseti(L, -2, 2); lua_pushstring(L, "s"); lua_pushboolean(L, 1); return 4; }
HARNESS(results_mixed) { world w; bystanders b(w.L); def(w.L, "f", mixed); res_d = sym_real("d"); res_i[0] = sym_int_in("i", -100, 100); auto r = w.lua["f"]().as<double, std::vector<double>, std::string, bool>(); sym_eq(std::get<0>(r), res_d, "mixed-first"); sym_assert(std::get<1>(r).size() == 2, "mixed-table-size"); sym_eq(std::get<1>(r)[0], res_d, "mixed-table"); sym_eq(std::get<1>(r)[1], (double)res_i[0], "mixed-table"); sym_assert(std::get<2>(r) == "s" && std::get<3>(r), "mixed-rest"); b.check("results-stack"); sym_assert(throws([&] { (void)w.lua["f"]().as<double, std::vector<double>, double, bool>(); }), "mixed-refused"); b.check("mixed-refused-stack"); }
static int with_nil(lua_State *L) { for (int i = 0; i < 3; i++) if (i == res_n) lua_pushnil(L); else lua_pushinteger(L, res_i[i]); return 3; }
HARNESS(results_nil) { world w; bystanders b(w.L); def(w.L, "f", with_nil); res_n = sym_pick("nil", 0, 2); for (int i = 0; i < 3; i++) res_i[i] = sym_int("e"); auto f = w.lua["f"]; bool t = throws([&] { auto r = f(); sym_assert(!r.empty() && r.size() == 3, "several-results-there"); }); sym_assert(!t || res_n >= 0, "several-results"); b.check("call-stack"); }
static int res_kind; static int answer_kind(lua_State *L) { push_kind(L, res_kind); return 1; }
HARNESS(results_kind) { world w; bystanders b(w.L); def(w.L, "f", answer_kind); res_kind = sym_pick("kind", 0, 6); auto f = w.lua["f"]; bool t = throws([&] { auto r = f(1, 2); sym_assert(!r.empty(), "result-there"); }); sym_assert(t == (res_kind == NIL), "nil-result"); b.check("call-stack"); }
HARNESS(call_fails) { world w; bystanders b(w.L); def(w.L, "f", answer); res_fail = true; auto f = w.lua["f"]; sym_assert(throws([&] { auto r = f(1, 2.5, "x"); }), "failing-function"); b.check("failing-call-stack"); res_fail = false; res_n = 1; res_i[0] = 4; sym_assert(f().as<int>() == 4, "call-after-failure"); b.check("failing-call-stack"); }
HARNESS(call_nothing) { world w; bystanders b(w.L); def(w.L, "f", nothing); auto f = w.lua["f"]; sym_assert(throws([&] { auto r = f(3); }), "no-result"); b.check("no-result-stack"); }
HARNESS(not_a_function) { world w; bystanders b(w.L); static const int kinds[] = {NIL, BOOL, WORD, INT, REAL, TABLE}; int k = sym_pick("kind", 0, 5); push_kind(w.L, kinds[k]); lua_setglobal(w.L, "x"); auto r = w.lua["x"]; sym_assert(throws([&] { auto q = r(1); }), "call-of-non-function"); b.check("call-of-non-function-stack"); }
static lua_t *outer; static int nested_call(lua_State *L) { int a = (int)lua_tointeger(L, 1); int d; { auto f = (*outer)["g"]; auto r = f(a); d = r.as<int>(); } lua_pushinteger(L, d + 1); return 1; }
static int twice(lua_State *L) { lua_pushinteger(L, 2 * lua_tointeger(L, 1)); return 1; }
HARNESS(call_nested) { world w; bystanders b(w.L); outer = &w.lua; def(w.L, "f", nested_call); def(w.L, "g", twice); int a = sym_int_in("a", -1000, 1000); sym_assert(w.lua["f"](a).as<int>() == 2 * a + 1, "nested-call"); b.check("nested-call-stack"); }
// larger ones
static int broken(lua_State *L) { lua_pushstring(L, "broken"); return lua_error(L); }
HARNESS(table_large) { world w; bystanders b(w.L); static const int sizes[] = {8, 16, 33, 70}; int n = sizes[sym_pick("n", 0, 3)]; int mid = sym_int("mid"), last = sym_int("last"); lua_newtable(w.L); for (int k = 1; k <= n; k++) { lua_pushinteger(w.L, k == n / 2 ? mid : k == n ? last : 100 + k); lua_rawseti(w.L, -2, k); } lua_setglobal(w.L, "t"); auto t = w.lua["t"]; sym_assert(t.size() == (size_t)n, "large-size"); sym_assert(t[1].as<int>() == 101 && t[n / 2].as<int>() == mid && t[n].as<int>() == last, "large-index"); sym_assert(t[n + 1].empty() && t[0].empty() && t[-1].empty(), "large-outside"); b.check("large-stack"); }
HARNESS(long_names) { world w; bystanders b(w.L); static const int sizes[] = {15, 16, 40, 300}; int n = sizes[sym_pick("n", 0, 3)]; std::string k(n, 'k'), q(n, 'k'); k[n - 1] = sym_char("c"); q[n - 1] = sym_char("d"); sym_assume(k[n - 1] != 0 && q[n - 1] != 0); int v = sym_int("v"); lua_newtable(w.L); lua_pushlstring(w.L, k.data(), n); lua_pushinteger(w.L, v); lua_rawset(w.L, -3); lua_setglobal(w.L, "t"); auto r = w.lua["t"][q]; sym_assert(r.empty() == (k != q), "long-key"); if (k == q) sym_assert(r.as<int>() == v, "long-key-value"); lua_pushinteger(w.L, v); std::string g = "g" + std::string(n, 'z'); lua_setglobal(w.L, g.c_str()); sym_assert(w.lua[g].as<int>() == v && w.lua[g + "z"].empty(), "long-global"); b.check("long-stack"); }
static long long many_v; static int answer_many(lua_State *L) { for (int i = 0; i < res_n; i++) lua_pushinteger(L, i == res_n - 1 ? many_v : 10 * i); return res_n; }
HARNESS(results_many) { world w; bystanders b(w.L); def(w.L, "f", answer_many); many_v = sym_int("v"); int how = sym_pick("how", 0, 1); res_n = how ? 12 : 6; auto r = w.lua["f"](1); sym_assert(r.size() == (size_t)res_n, "many-results"); if (how == 0) { auto t = r.as<int, int, int, int, int, int>(); sym_assert(std::get<0>(t) == 0 && std::get<1>(t) == 10 && std::get<2>(t) == 20 && std::get<3>(t) == 30 && std::get<4>(t) == 40 && std::get<5>(t) == many_v, "six-results"); auto u = r.as<int, long long, int, int, std::string, int>(); sym_assert(std::get<4>(u) == "40" && std::get<5>(u) == many_v, "six-results-again"); } else { auto t = r.as<int, int, int, int, int, int, int, int, int, int, int, int>(); sym_assert(std::get<0>(t) == 0 && std::get<5>(t) == 50 && std::get<10>(t) == 100 && std::get<11>(t) == many_v, "twelve-results"); } sym_assert(throws([&] { (void)r.as<int, int, int, int, int>(); }), "five-of-more"); b.check("call-stack"); }
HARNESS(calls_repeated) { world w; bystanders b(w.L); int base = live_refs(w.L); calls = 0; def(w.L, "f", record); def(w.L, "bad", broken); int a = sym_int_in("a", -1000, 1000); { auto f = w.lua["f"], g = w.lua["bad"]; for (int i = 0; i < 40; i++) { f(a + i, 2.5); sym_assert(calls == i + 1 && seen_n == 2 && seen_i[0] == a + i, "repeated-call"); sym_assert(throws([&] { g(i); }), "repeated-failure"); sym_assert(throws([&] { (void)w.lua["none"](1); }), "repeated-missing"); } } b.check("repeated-stack"); sym_assert(live_refs(w.L) == base, "repeated-references"); }
// references and lifetimes
HARNESS(references) { world w; bystanders b(w.L); int base = live_refs(w.L); int v = sym_int("v"); lua_newtable(w.L); lua_pushinteger(w.L, v); lua_setfield(w.L, -2, "k"); lua_setglobal(w.L, "t"); { auto t = w.lua["t"]; auto k = t["k"]; auto c = k; auto m = std::move(c); std::vector<lua_result_t> all(2, k); all.push_back(m); { auto e = w.lua["none"]; all.push_back(e); } sym_assert(all[0].as<int>() == v && all[2].as<int>() == v && m.as<int>() == v && all[3].empty(), "reference-copies"); k = t; sym_assert(k["k"].as<int>() == v && all[1].as<int>() == v, "reference-assigned"); lua_pushnil(w.L); lua_setglobal(w.L, "t"); sym_assert(t["k"].as<int>() == v, "reference-holds"); } sym_assert(live_refs(w.L) == base, "references-released"); b.check("reference-stack"); def(w.L, "f", answer); res_fail = false; res_n = 3; { auto r = w.lua["f"](1); auto q = r; } sym_assert(live_refs(w.L) == base, "result-references-released"); }
HARNESS(outlive) { int v = sym_int("v"); std::unique_ptr<lua_result_t> r; int n = 0; { lua_t lua(false); lua_State *L = lua.state(); lua_newtable(L); lua_pushinteger(L, v); lua_rawseti(L, -2, 1); lua_setglobal(L, "t"); if (sym_pick("copy", 0, 1)) { lua_t other(lua); r.reset(new lua_result_t(other["t"])); } else r.reset(new lua_result_t(lua["t"])); } sym_assert((*r)[1].as<int>() == v, "result-outlives-state"); sym_assert(r->get_top()["t"][1].as<int>() == v, "get-top"); r.reset();
#ifdef MINILUA
  sym_assert(minilua_open == 0, "state-closed");
#endif
}
HARNESS(states_apart) { lua_t a(false), b(false); int v = sym_int("v"), u = sym_int("u"); lua_pushinteger(a.state(), v); lua_setglobal(a.state(), "x"); lua_pushinteger(b.state(), u); lua_setglobal(b.state(), "x"); lua_pushinteger(b.state(), u); lua_setglobal(b.state(), "y"); sym_assert(a["x"].as<int>() == v && b["x"].as<int>() == u && a["y"].empty(), "states-apart"); lua_t c = a; sym_assert(c["x"].as<int>() == v && c.state() == a.state(), "state-copy"); }
static int plus(lua_State *L) { lua_pushinteger(L, lua_tointeger(L, 1) + lua_tointeger(L, 2)); return 1; }
HARNESS(wrapper) { int a = sym_int_in("a", -1000000, 1000000), c = sym_int_in("c", -1000000, 1000000), how = sym_pick("how", 0, 3); using F = std::function<int(int, int)>; F f, g; { lua_t lua(false); def(lua.state(), "plus", plus); def(lua.state(), "twice", twice); if (how == 0) { auto p = std::make_unique<lua_result_t>(lua["plus"]); Lua_Func_Wrapper<F> w(std::move(p)); f = w; g = f; } else { auto r = std::make_unique<lua_result_t>(lua["plus"]); Lua_Func_Wrapper<F> w(*r); if (how == 1) *r = lua["twice"]; f = w; if (how == 2) r.reset(); g = f; sym_assert(w(a, c) == a + c, "wrapper-call"); } } sym_assert(f(a, c) == a + c, "wrapped-function"); sym_assert(g(c, 1) == c + 1, "wrapped-copy"); }
static int set_x(lua_State *L) { lua_pushinteger(L, res_i[0]); lua_setglobal(L, "x"); return 0; }
HARNESS(load) { world w(true); bystanders b(w.L); res_i[0] = sym_int("v"); chunk_fn = set_x; chunk_status = LUA_OK; int how = sym_pick("how", 0, 2); if (how == 0) w.lua.loadfile("a/file.lua"); else if (how == 1) sym_assert(!w.lua.run_string("a/file.lua"), "run-string-status"); else sym_assert(!w.lua("a/file.lua"), "call-status"); sym_assert(chunk_name == "a/file.lua", "chunk-name"); sym_assert(w.lua["x"].as<int>() == res_i[0], "chunk-ran"); b.check("load-stack"); }
HARNESS(load_fails) { world w(true); bool early = sym_pick("early", 0, 1), file = sym_pick("file", 0, 1); chunk_fn = broken; chunk_status = early ? (file ? LUA_ERRFILE : LUA_ERRSYNTAX) : LUA_OK; sym_assert(throws([&] { if (file) w.lua.loadfile("f"); else w.lua.run_string("f"); }), "load-failure"); chunk_fn = set_x; chunk_status = LUA_OK; res_i[0] = 3; w.lua.run_string("g"); sym_assert(w.lua["x"].as<int>() == 3, "load-after-failure"); }
HARNESS(no_memory) { no_memory = true; bool t = throws([] { lua_t lua(false); }); no_memory = false; sym_assert(t, "no-memory"); lua_t lua(false); lua_pushinteger(lua.state(), 1); lua_setglobal(lua.state(), "x"); sym_assert(lua["x"].as<int>() == 1, "after-no-memory"); }
#ifdef MINILUA
HARNESS(stack_full) { world w; bystanders b(w.L); calls = 0; lua_newtable(w.L); lua_setglobal(w.L, "t"); def(w.L, "f", record); def(w.L, "x", record); auto t = w.lua["t"], f = w.lua["f"], x = w.lua["x"]; minilua_fail_checkstack = 1; int k = sym_pick("k", 0, 3); bool r = throws([&] { if (k == 0) (void)t["a"]; else if (k == 1) (void)t[1]; else if (k == 2) (void)f(1); else (void)x.as<int>(); }); minilua_fail_checkstack = 0; sym_assert(r && calls == 0, "full-stack"); b.check("full-stack-stack"); }
#endif
// looking at the stack does not change it
HARNESS(rows) { world w; int k = sym_pick("kind", 0, 6); push_kind(w.L, k); lua_pushinteger(w.L, 5); static const char *const text[] = {"other  >> nil", "bool   >> true", "other  >> function", "string >> word", "", "", "other  >> table"}; if (k != INT && k != REAL) sym_assert(w.lua.get_row(1) == text[k] && w.lua.get_row(-2) == text[k], "row-text"); else (void)w.lua.get_row(1); w.lua.print_last_row(); std::stringstream o; o << w.lua; static const int types[] = {LUA_TNIL, LUA_TBOOLEAN, LUA_TFUNCTION, LUA_TSTRING, LUA_TNUMBER, LUA_TNUMBER, LUA_TTABLE}; sym_assert(lua_gettop(w.L) == 2 && lua_type(w.L, 1) == types[k] && lua_type(w.L, 2) == LUA_TNUMBER, "rows-unchanged"); if (k == WORD) sym_assert(o.str().find("string >> word") != std::string::npos, "dump-text"); lua_settop(w.L, 0); std::stringstream e; w.lua.dump_stack(e); sym_assert(e.str().find("empty") != std::string::npos, "dump-empty"); }
HARNESS(results_seventeen) { world w; bystanders b(w.L); def(w.L, "f", answer_many); many_v = sym_int("v"); res_n = 17; auto r = w.lua["f"](1); sym_assert(r.size() == 17, "many-results"); auto t = r.as<int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int>(); sym_assert(std::get<0>(t) == 0 && std::get<9>(t) == 90 && std::get<15>(t) == 150 && std::get<16>(t) == many_v, "seventeen-results"); b.check("call-stack"); }
