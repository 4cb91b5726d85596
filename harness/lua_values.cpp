// Conversions of Lua values: what as<T>() gives or refuses, and what it leaves behind.
#include "lua_common.h"
#include <limits>
#include <ristra/math/vector.h>
#include <ristra/math/matrix.h>
// pushes a value of any Lua type; kinds 0-4 are not convertible to numbers
enum { NIL, BOOL, TABLE, FUNC, WORD, INT, REAL, NUMERAL };
static void push_kind(lua_State *L, int kind) { switch (kind) { case NIL: lua_pushnil(L); break; case BOOL: lua_pushboolean(L, 1); break; case TABLE: lua_newtable(L); break; case FUNC: lua_pushcfunction(L, nothing); break; case WORD: lua_pushstring(L, "word"); break; case INT: lua_pushinteger(L, 5); break; case REAL: lua_pushnumber(L, 2.5); break; default: lua_pushstring(L, "12"); } }
template<class T> static bool fits(long long v) { if (std::is_unsigned<T>::value) return v >= 0 && (sizeof(T) == 8 || (unsigned long long)v <= std::numeric_limits<T>::max()); return v >= (long long)std::numeric_limits<T>::min() && v <= (long long)std::numeric_limits<T>::max(); }
// a global x holding the value on top of the stack
struct world { lua_t lua; lua_State *L; world() : lua(false), L(lua.state()) {} void set(const char *k = "x") { lua_setglobal(L, k); } };
template<class T> static void ints() { world w; bystanders b(w.L); long long v = sym_long("v"); lua_pushinteger(w.L, v); w.set(); auto r = w.lua["x"]; T got{}; bool t = throws([&] { got = r.template as<T>(); }); sym_assert(t == !fits<T>(v), "integer-range"); if (!t) sym_assert((long long)got == v, "integer-value"); b.check("integer-stack"); }
HARNESS(int_values) { ints<int>(); }
HARNESS(long_values) { ints<long long>(); }
HARNESS(size_values) { ints<std::size_t>(); }
HARNESS(byte_values) { ints<unsigned char>(); }
HARNESS(short_values) { ints<short>(); }
HARNESS(int_from_real) { static const double v[] = {2.0, 2.5, -3.0, -0.5, 1e30, 4294967296.0, 0.0}; static const bool ok[] = {true, false, true, false, false, false, true}; world w; bystanders b(w.L); int k = sym_pick("k", 0, 6); lua_pushnumber(w.L, v[k]); w.set(); auto r = w.lua["x"]; int got = 77; bool t = throws([&] { got = r.as<int>(); }); sym_assert(t == !ok[k], "integral-real"); if (ok[k]) sym_assert(got == (int)v[k], "integral-real-value"); b.check("integral-real-stack"); }
template<class T> static void refused(int lo, int hi, const char *label) { world w; bystanders b(w.L); int k = sym_pick("kind", lo, hi); push_kind(w.L, k); w.set(); auto r = w.lua["x"]; sym_assert(throws([&] { (void)r.template as<T>(); }), label); b.check("refusal-stack"); }
HARNESS(int_refused) { refused<int>(NIL, WORD, "int-of-other-type"); }
HARNESS(double_refused) { refused<double>(NIL, WORD, "double-of-other-type"); }
HARNESS(float_refused) { refused<float>(NIL, WORD, "float-of-other-type"); }
HARNESS(string_refused) { refused<std::string>(NIL, FUNC, "string-of-other-type"); }
HARNESS(bool_refused) { int k = sym_pick("kind", 0, 6); static const int kinds[] = {NIL, TABLE, FUNC, WORD, INT, REAL, NUMERAL}; world w; bystanders b(w.L); push_kind(w.L, kinds[k]); w.set(); auto r = w.lua["x"]; sym_assert(throws([&] { (void)r.as<bool>(); }), "bool-of-other-type"); b.check("refusal-stack"); }
template<class T> static void table_refused(const char *label) { int k = sym_pick("kind", 0, 6); static const int kinds[] = {NIL, BOOL, FUNC, WORD, INT, REAL, NUMERAL}; world w; bystanders b(w.L); push_kind(w.L, kinds[k]); w.set(); auto r = w.lua["x"]; sym_assert(throws([&] { (void)r.template as<T>(); }), label); b.check("refusal-stack"); }
HARNESS(vector_refused) { table_refused<std::vector<int>>("vector-of-other-type"); }
HARNESS(array_refused) { table_refused<std::array<int, 2>>("array-of-other-type"); }
HARNESS(matrix_refused) { table_refused<ristra::math::matrix<double, 2, 2>>("matrix-of-other-type"); }
HARNESS(numeral) { world w; bystanders b(w.L); lua_pushstring(w.L, sym_pick("k", 0, 1) ? "-7" : "  12 "); bool neg = lua_tointeger(w.L, -1) < 0; w.set(); auto r = w.lua["x"]; sym_assert(r.as<int>() == (neg ? -7 : 12), "numeral-int"); sym_assert(r.as<double>() == (neg ? -7.0 : 12.0), "numeral-double"); b.check("numeral-stack"); }
HARNESS(double_values) { world w; bystanders b(w.L); double v = sym_real("v"); lua_pushnumber(w.L, v); w.set(); auto r = w.lua["x"]; sym_eq(r.as<double>(), v, "double-value"); b.check("double-stack"); }
HARNESS(float_values) { world w; bystanders b(w.L); float f = (float)sym_real("v"); lua_pushnumber(w.L, f); w.set(); auto r = w.lua["x"]; sym_eq(r.as<float>(), f, "float-value"); b.check("float-stack"); }
HARNESS(double_from_int) { world w; bystanders b(w.L); int v = sym_int_in("v", -1000, 1000); lua_pushinteger(w.L, v); w.set(); auto r = w.lua["x"]; sym_eq(r.as<double>(), (double)v, "double-from-int"); b.check("double-stack"); }
HARNESS(bool_values) { world w; bystanders b(w.L); bool v = sym_bool("v"); lua_pushboolean(w.L, v); w.set(); auto r = w.lua["x"]; sym_assert(r.as<bool>() == v, "bool-value"); b.check("bool-stack"); }
HARNESS(string_values) { world w; bystanders b(w.L); std::string v; int n = sym_pick("n", 0, thorough ? 4 : 3); for (int i = 0; i < n; i++) v.push_back(sym_char("c")); lua_pushlstring(w.L, v.data(), v.size()); w.set(); auto r = w.lua["x"]; sym_assert(r.as<std::string>() == v, "string-value"); sym_assert(r.size() == v.size(), "string-size"); b.check("string-stack"); }
HARNESS(string_long) { world w; bystanders b(w.L); std::string v(40, 'a'); int at = sym_pick("at", 0, 39); v[at] = sym_char("c"); lua_pushlstring(w.L, v.data(), v.size()); w.set(); sym_assert(w.lua["x"].as<std::string>() == v, "string-value"); b.check("string-stack"); }
HARNESS(string_from_number) { world w; bystanders b(w.L); bool real = sym_pick("real", 0, 1); int v = sym_int_in("v", -12, 12); if (real) { int k = sym_pick("k", -2, 2); lua_pushnumber(w.L, k); w.set(); auto r = w.lua["x"]; sym_assert(r.as<std::string>() == dec(k) + ".0", "string-of-number"); sym_assert(r.as<double>() == k, "number-unchanged"); } else { lua_pushinteger(w.L, v); w.set(); auto r = w.lua["x"]; sym_assert(r.as<std::string>() == dec(v), "string-of-number"); sym_assert(r.as<int>() == v, "number-unchanged"); } b.check("string-stack"); }
HARNESS(default_value) { world w; bystanders b(w.L); int v = sym_int("v"), d = sym_int("d"); bool there = sym_pick("there", 0, 1); if (there) { lua_pushinteger(w.L, v); w.set(); } auto r = w.lua["x"]; sym_assert(r.as<int>(d) == (there ? v : d), "default-value"); sym_assert(r.empty() == !there, "default-empty"); b.check("default-stack"); }
// sequences
template<class C> static void push_list(lua_State *L, int n, C put) { lua_newtable(L); for (int i = 0; i < n; i++) { put(i); lua_rawseti(L, -2, i + 1); } }
HARNESS(vector_values) { world w; bystanders b(w.L); int n = sym_pick("n", 0, thorough ? 5 : 3); std::vector<int> v; push_list(w.L, n, [&](int) { v.push_back(sym_int("e")); lua_pushinteger(w.L, v.back()); }); w.set(); auto r = w.lua["x"]; sym_assert(r.as<std::vector<int>>() == v, "vector-value"); sym_assert(r.size() == (size_t)n, "vector-size"); b.check("vector-stack"); }
HARNESS(vector_reals) { world w; bystanders b(w.L); int n = sym_pick("n", 1, 3); std::vector<double> v; push_list(w.L, n, [&](int) { v.push_back(sym_real("e")); lua_pushnumber(w.L, v.back()); }); w.set(); auto g = w.lua["x"].as<std::vector<double>>(); sym_assert(g.size() == (size_t)n, "vector-reals-size"); for (int i = 0; i < n; i++) sym_eq(g[i], v[i], "vector-reals"); b.check("vector-stack"); }
HARNESS(vector_strings) { world w; bystanders b(w.L); int n = sym_pick("n", 1, 2); std::vector<std::string> v; push_list(w.L, n, [&](int) { v.push_back(std::string(1, sym_char("e")) + "z"); lua_pushlstring(w.L, v.back().data(), 2); }); w.set(); sym_assert(w.lua["x"].as<std::vector<std::string>>() == v, "vector-strings"); b.check("vector-stack"); }
HARNESS(vector_bad) { world w; bystanders b(w.L); int n = 3, bad = sym_pick("bad", 0, 2), kind = sym_pick("kind", 1, WORD); push_list(w.L, n, [&](int i) { if (i == bad) push_kind(w.L, kind); else lua_pushinteger(w.L, i); }); w.set(); auto r = w.lua["x"]; sym_assert(throws([&] { (void)r.as<std::vector<int>>(); }), "vector-element-type"); b.check("vector-stack"); sym_assert(throws([&] { (void)r.as<std::array<int, 3>>(); }), "array-element-type"); b.check("array-stack"); }
HARNESS(vector_nested) { world w; bystanders b(w.L); int n = sym_pick("n", 0, 2), m = sym_pick("m", 0, 2); std::vector<std::vector<int>> v; push_list(w.L, n, [&](int i) { std::vector<int> row; push_list(w.L, i ? m : 1, [&](int) { row.push_back(sym_int("e")); lua_pushinteger(w.L, row.back()); }); v.push_back(row); }); w.set(); sym_assert(w.lua["x"].as<std::vector<std::vector<int>>>() == v, "nested-value"); b.check("nested-stack"); }
HARNESS(array_values) { world w; bystanders b(w.L); int n = sym_pick("n", 0, 4); std::vector<int> v; push_list(w.L, n, [&](int) { v.push_back(sym_int("e")); lua_pushinteger(w.L, v.back()); }); w.set(); auto r = w.lua["x"]; std::array<int, 3> a{}; bool t = throws([&] { a = r.as<std::array<int, 3>>(); }); sym_assert(t == (n != 3), "array-length"); if (!t) sym_assert(a[0] == v[0] && a[1] == v[1] && a[2] == v[2], "array-value"); b.check("array-stack"); t = throws([&] { auto m = r.as<ristra::math::vector<int, 2>>(); sym_assert(m[0] == v[0] && m[1] == v[1], "math-vector-value"); }); sym_assert(t == (n != 2), "math-vector-length"); b.check("array-stack"); }
HARNESS(matrix_values) { world w; bystanders b(w.L); int rows = sym_pick("rows", 1, 3), cols = sym_pick("cols", 1, 4), odd = sym_pick("odd", -1, 1); double v[3][4]; bool same = odd < 0 || odd >= rows; push_list(w.L, rows, [&](int i) { push_list(w.L, i == odd ? 3 - (cols == 3) : cols, [&](int j) { v[i][j] = sym_real("e"); lua_pushnumber(w.L, v[i][j]); }); }); bool shape = rows == 2; for (int i = 0; i < rows; i++) shape = shape && (i == odd ? 3 - (cols == 3) : cols) == 3; w.set(); auto r = w.lua["x"]; ristra::math::matrix<double, 2, 3> m; bool t = throws([&] { m = r.as<ristra::math::matrix<double, 2, 3>>(); }); sym_assert(t == !shape, "matrix-shape"); if (!t) for (int i = 0; i < 2; i++) for (int j = 0; j < 3; j++) sym_eq(m(i, j), v[i][j], "matrix-value"); b.check("matrix-stack"); }
HARNESS(matrix_rows) { world w; bystanders b(w.L); int bad = sym_pick("bad", 0, 1), kind = sym_pick("kind", 0, 5); static const int kinds[] = {BOOL, FUNC, WORD, INT, REAL, NUMERAL}; push_list(w.L, 2, [&](int i) { if (i == bad) push_kind(w.L, kinds[kind]); else push_list(w.L, 2, [&](int j) { lua_pushinteger(w.L, j); }); }); w.set(); auto r = w.lua["x"]; sym_assert(throws([&] { (void)r.as<ristra::math::matrix<double, 2, 2>>(); }), "matrix-row-type"); b.check("matrix-stack"); }
// longer ones: thresholds in length
static const int lengths[] = {8, 15, 16, 17, 33, 70};
HARNESS(vector_long) { world w; bystanders b(w.L); int n = lengths[sym_pick("n", 0, 5)]; std::vector<int> v; push_list(w.L, n, [&](int i) { v.push_back(i == 0 || i == n / 2 || i == n - 1 ? sym_int("e") : 1000 + i); lua_pushinteger(w.L, v.back()); }); w.set(); auto r = w.lua["x"]; sym_assert(r.as<std::vector<int>>() == v, "long-vector-value"); sym_assert(r.size() == (size_t)n, "long-vector-size"); b.check("vector-stack"); }
HARNESS(vector_long_bad) { world w; bystanders b(w.L); int n = 20, bad = sym_pick("bad", 0, 19), kind = sym_pick("kind", 1, 2); push_list(w.L, n, [&](int i) { if (i == bad) push_kind(w.L, kind == 1 ? WORD : TABLE); else lua_pushinteger(w.L, i); }); w.set(); auto r = w.lua["x"]; sym_assert(throws([&] { (void)r.as<std::vector<int>>(); }), "long-vector-element-type"); b.check("vector-stack"); sym_assert(throws([&] { (void)r.as<std::array<double, 20>>(); }), "long-array-element-type"); b.check("array-stack"); if (bad != 0) sym_assert(r[1].as<int>() == 0, "after-refusal"); b.check("after-refusal-stack"); }
HARNESS(array_long) { world w; bystanders b(w.L); int n = sym_pick("n", 15, 17); std::vector<double> v; push_list(w.L, n, [&](int) { v.push_back(sym_real("e")); lua_pushnumber(w.L, v.back()); }); w.set(); auto r = w.lua["x"]; std::array<double, 16> a{}; bool t = throws([&] { a = r.as<std::array<double, 16>>(); }); sym_assert(t == (n != 16), "long-array-length"); if (!t) for (int i = 0; i < 16; i++) sym_eq(a[i], v[i], "long-array-value"); b.check("array-stack"); }
HARNESS(vector_range) { world w; bystanders b(w.L); long long e[3]; push_list(w.L, 3, [&](int i) { e[i] = i == 1 ? sym_long("e") : i; lua_pushinteger(w.L, e[i]); }); w.set(); auto r = w.lua["x"]; std::vector<short> v; bool t = throws([&] { v = r.as<std::vector<short>>(); }); sym_assert(t == !fits<short>(e[1]), "element-range"); if (!t) sym_assert(v.size() == 3 && v[0] == 0 && v[1] == e[1] && v[2] == 2, "element-value"); b.check("vector-stack"); std::array<unsigned, 3> a{}; t = throws([&] { a = r.as<std::array<unsigned, 3>>(); }); sym_assert(t == !fits<unsigned>(e[1]), "array-element-range"); if (!t) sym_assert(a[1] == (unsigned)e[1], "array-element-value"); b.check("array-stack"); }
HARNESS(nested_others) { world w; bystanders b(w.L); int n = sym_pick("n", 1, 3), m = sym_pick("m", 1, 3); int v[3][3]; push_list(w.L, n, [&](int i) { push_list(w.L, m, [&](int j) { v[i][j] = sym_int("e"); lua_pushinteger(w.L, v[i][j]); }); }); w.set(); auto r = w.lua["x"]; std::array<std::vector<int>, 2> a; bool t = throws([&] { a = r.as<std::array<std::vector<int>, 2>>(); }); sym_assert(t == (n != 2), "array-of-vectors-length"); if (!t) for (int i = 0; i < 2; i++) { sym_assert(a[i].size() == (size_t)m, "array-of-vectors-row"); for (int j = 0; j < m; j++) sym_assert(a[i][j] == v[i][j], "array-of-vectors-value"); } b.check("nested-stack");
  std::vector<std::array<int, 2>> c; t = throws([&] { c = r.as<std::vector<std::array<int, 2>>>(); }); sym_assert(t == (m != 2), "vector-of-arrays-length"); if (!t) { sym_assert(c.size() == (size_t)n, "vector-of-arrays-size"); for (int i = 0; i < n; i++) sym_assert(c[i][0] == v[i][0] && c[i][1] == v[i][1], "vector-of-arrays-value"); } b.check("nested-stack"); }
HARNESS(nested_deep) { world w; bystanders b(w.L); int n = sym_pick("n", 0, 3); std::vector<std::vector<std::vector<int>>> v(2); push_list(w.L, 2, [&](int i) { push_list(w.L, i ? n : 1, [&](int) { std::vector<int> row; push_list(w.L, 2, [&](int) { row.push_back(sym_int("e")); lua_pushinteger(w.L, row.back()); }); v[i].push_back(row); }); }); w.set(); sym_assert(w.lua["x"].as<std::vector<std::vector<std::vector<int>>>>() == v, "deep-value"); b.check("nested-stack"); }
HARNESS(nested_strings) { world w; bystanders b(w.L); std::vector<std::vector<std::string>> v(2); std::string big(33, 'q'); big[sym_pick("at", 0, 2) * 16] = sym_char("c"); push_list(w.L, 2, [&](int i) { push_list(w.L, 2, [&](int j) { v[i].push_back(i == j ? big : std::string(1, sym_char("d"))); lua_pushlstring(w.L, v[i].back().data(), v[i].back().size()); }); }); w.set(); auto r = w.lua["x"]; sym_assert(r.as<std::vector<std::vector<std::string>>>() == v, "nested-strings"); auto a = r[2].as<std::array<std::string, 2>>(); sym_assert(a[0] == v[1][0] && a[1] == v[1][1], "array-strings"); b.check("nested-stack"); }
HARNESS(default_other) { world w; bystanders b(w.L); int kind = sym_pick("kind", 0, 7); push_kind(w.L, kind); w.set(); auto r = w.lua["x"]; int d = sym_int("d"), got = 0; bool t = throws([&] { got = r.as<int>(d); }); sym_assert(t == (kind != NIL && kind != INT && kind != NUMERAL), "default-wrong-type"); if (!t) sym_assert(got == (kind == NIL ? d : kind == INT ? 5 : 12), "default-or-value"); b.check("default-stack"); std::vector<int> dv{d, 2}, gv; t = throws([&] { gv = r.as<std::vector<int>>(dv); }); sym_assert(t == (kind != NIL && kind != TABLE), "default-vector-wrong-type"); if (!t) sym_assert(kind == NIL ? gv == dv : gv.empty(), "default-vector"); b.check("default-stack"); }
HARNESS(default_bool) { world w; bystanders b(w.L); bool v = sym_bool("v"), d = sym_bool("d"), there = sym_pick("there", 0, 1); if (there) { lua_pushboolean(w.L, v); w.set(); } sym_assert(w.lua["x"].as<bool>(d) == (there ? v : d), "default-bool"); b.check("default-stack"); double z = sym_real("z"); lua_pushnumber(w.L, z); w.set("y"); sym_eq(w.lua["y"].as<double>(7.5), z, "default-not-for-zero"); lua_pushstring(w.L, ""); w.set("s"); sym_assert(w.lua["s"].as<std::string>(std::string("dflt")).empty(), "default-not-for-empty"); b.check("default-stack"); }
HARNESS(int_from_real_wide) { static const double v[] = {9223372036854775807.0, -9223372036854775808.0, 9007199254740992.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 0.9999, -1e-9}; int k = sym_pick("k", 0, 8); world w; bystanders b(w.L); lua_pushnumber(w.L, v[k]); w.set(); auto r = w.lua["x"]; bool l = k != 0 && k < 7, i = k == 3 || k == 5; long long gl = 0; int gi = 0; bool t = throws([&] { gl = r.as<long long>(); }); sym_assert(t == !l, "wide-real"); if (!t) sym_assert(gl == (k == 1 ? std::numeric_limits<long long>::min() : (long long)v[k]), "wide-real-value"); t = throws([&] { gi = r.as<int>(); }); sym_assert(t == !i, "int-real"); if (!t) sym_assert(gi == (int)v[k], "int-real-value"); b.check("integral-real-stack"); }
// a value anywhere on the stack: converted, and that one removed
template<class T, class P, class E> static void anywhere(P put, E equals) { lua_t lua(false); lua_State *L = lua.state(); int below = sym_pick("below", 0, 2), above = sym_pick("above", 0, 2); bool neg = sym_pick("negative", 0, 1); for (int i = 0; i < below; i++) lua_pushinteger(L, 700 + i); put(L); for (int i = 0; i < above; i++) { if (i == 0) { lua_newtable(L); lua_pushinteger(L, 55); lua_rawseti(L, -2, 1); } else lua_pushinteger(L, 800 + i); } T v = lua_value<T>::get(L, neg ? -1 - above : below + 1); sym_assert(equals(v), "anywhere-value"); bool ok = lua_gettop(L) == below + above; for (int i = 0; ok && i < below; i++) ok = lua_tointeger(L, i + 1) == 700 + i; if (ok && above > 0) ok = lua_type(L, below + 1) == LUA_TTABLE; if (ok && above > 1) ok = lua_tointeger(L, below + 2) == 801; sym_assert(ok, "anywhere-stack"); }
HARNESS(anywhere_int) { int e = sym_int("e"); anywhere<int>([&](lua_State *L) { lua_pushinteger(L, e); }, [&](int v) { return v == e; }); }
HARNESS(anywhere_string) { char c = sym_char("c"); anywhere<std::string>([&](lua_State *L) { lua_pushlstring(L, &c, 1); }, [&](const std::string &v) { return v == std::string(1, c); }); }
HARNESS(anywhere_bool) { bool e = sym_bool("e"); anywhere<bool>([&](lua_State *L) { lua_pushboolean(L, e); }, [&](bool v) { return v == e; }); }
HARNESS(anywhere_double) { double e = sym_real("e"); anywhere<double>([&](lua_State *L) { lua_pushnumber(L, e); }, [&](double v) { return v == e; }); }
HARNESS(anywhere_vector) { int e = sym_int("e"), f = sym_int("f"); anywhere<std::vector<int>>([&](lua_State *L) { push_list(L, 2, [&](int i) { lua_pushinteger(L, i ? f : e); }); }, [&](const std::vector<int> &v) { return v.size() == 2 && v[0] == e && v[1] == f; }); }
HARNESS(anywhere_array) { int e = sym_int("e"), f = sym_int("f"); anywhere<std::array<int, 2>>([&](lua_State *L) { push_list(L, 2, [&](int i) { lua_pushinteger(L, i ? f : e); }); }, [&](const std::array<int, 2> &v) { return v[0] == e && v[1] == f; }); }
HARNESS(anywhere_matrix) { double e = sym_real("e"); anywhere<ristra::math::matrix<double, 1, 2>>([&](lua_State *L) { push_list(L, 1, [&](int) { push_list(L, 2, [&](int i) { lua_pushnumber(L, i ? 3 : e); }); }); }, [&](ristra::math::matrix<double, 1, 2> &v) { return v(0, 0) == e && v(0, 1) == 3; }); }
// several results asked for as a tuple: refused without a trace
static int three(lua_State *L) { for (int i = 0; i < 3; i++) push_kind(L, (int)lua_tointeger(L, 1) == i ? (int)lua_tointeger(L, 2) : INT); return 3; }
HARNESS(tuple_refused) { world w; bystanders b(w.L); lua_pushcfunction(w.L, three); w.set("f"); int at = sym_pick("at", 0, 2), kind = sym_pick("kind", BOOL, WORD); auto r = w.lua["f"](at, kind); sym_assert(throws([&] { (void)r.as<int, int, int>(); }), "tuple-element-type"); b.check("tuple-stack"); sym_assert(throws([&] { (void)r.as<int, int>(); }), "tuple-length"); b.check("tuple-stack"); auto ok = w.lua["f"](9, 0).as<int, double, int>(); sym_assert(std::get<0>(ok) == 5 && std::get<1>(ok) == 5 && std::get<2>(ok) == 5, "tuple-value"); b.check("tuple-stack"); }
HARNESS(matrix_large) { world w; bystanders b(w.L); int at = sym_pick("at", 0, 3), r0 = at & 1 ? 13 : 0, c0 = at & 2 ? 15 : 3; double e = sym_real("e"); push_list(w.L, 14, [&](int i) { push_list(w.L, 16, [&](int j) { lua_pushnumber(w.L, i == r0 && j == c0 ? e : 100. * i + j); }); }); w.set(); auto m = w.lua["x"].as<ristra::math::matrix<double, 14, 16>>(); for (int i = 0; i < 14; i++) for (int j = 0; j < 16; j++) sym_eq(m(i, j), i == r0 && j == c0 ? e : 100. * i + j, "large-matrix-value"); b.check("matrix-stack"); }
