// Design-by-contract assertions: what they decide, what they report, in every mode.
#include "sym.h"
#include <ristra/ristra-config.h>
#undef RISTRA_REQUIRE_ON
#undef RISTRA_DBC_THROW
#undef RISTRA_DBC_NOTIFY
#if MODE & 1
#define RISTRA_REQUIRE_ON
#endif
#if (MODE >> 1) == 1
#define RISTRA_DBC_THROW
#elif (MODE >> 1) == 2
#define RISTRA_DBC_NOTIFY
#endif
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <ristra/assertions/dbc.h>
#include <ristra/assertions/errors.h>
#include <ristra/assertions/here.h>
namespace dbc = ristra::assertions::dbc;
constexpr bool on = MODE & 1; constexpr int act = MODE >> 1; // 0 nothing, 1 throw, 2 notify
struct num { int v; bool operator==(const num &o) const { return v == o.v; } bool operator!=(const num &o) const { return v != o.v; } bool operator<(const num &o) const { return v < o.v; } bool operator>(const num &o) const { return v > o.v; } bool operator<=(const num &o) const { return v <= o.v; } bool operator>=(const num &o) const { return v >= o.v; } };
inline std::ostream &operator<<(std::ostream &o, const num &) { return o << "n"; }
template<class T> struct val { T v; operator T() const { return v; } }; // compares as a T does, prints as n (printing a symbolic number takes a path per text)
template<class T> inline std::ostream &operator<<(std::ostream &o, const val<T> &) { return o << "n"; }
static std::string dec(long v) { std::string r; bool n = v < 0; unsigned long u = n ? 0ul - v : v; do { r.insert(r.begin(), char('0' + u % 10)); u /= 10; } while (u); if (n) r.insert(r.begin(), '-'); return r; }
static bool has(const std::string &a, const std::string &b) { return a.find(b) != std::string::npos; }
// runs f; records the boolean it returns, the text reported and how
struct seen { bool ret = false, thrown = false; std::string text; };
template<class F> static seen watch(F f) { seen s; std::stringstream out; auto *old = dbc::p_str; dbc::p_str = &out; try { s.ret = f(); } catch (const std::logic_error &e) { s.thrown = true; s.text = e.what(); } dbc::p_str = old; if (!s.thrown) s.text = out.str(); return s; }
// the outcome of an assertion that is enabled (always = Insist)
static void outcome(const seen &s, bool cond, bool enabled, const std::string &what, int line, const char *func, bool returns = true) {
  bool fires = enabled && !cond;
  if (act == 1) sym_assert(s.thrown == fires, "throws-iff-false"); else sym_assert(!s.thrown, "does-not-throw");
  if (returns && !s.thrown) sym_assert(s.ret == cond, "returns-condition");
  if (fires && act != 0) { std::string e = std::string(__FILE__) + ":" + dec(line) + ":" + func + " assertion '" + what + "' failed."; sym_assert(has(s.text, e), "report"); } else sym_assert(s.text.empty(), "no-report");
}
#define CASE(expr, cond, enabled, what) { int line = 0; const char *func = nullptr; auto s = watch([&]() -> bool { func = __FUNCTION__; line = __LINE__; bool r = expr; return r; }); outcome(s, cond, enabled, what, line, func); }
#define CASEV(stmt, cond, enabled, what) { int line = 0; const char *func = nullptr; auto s = watch([&]() -> bool { func = __FUNCTION__; line = __LINE__; stmt; return true; }); outcome(s, cond, enabled, what, line, func, false); }
HARNESS(equal) { num a{sym_int("a")}, b{sym_int("b")}; CASE(Equal(a, b), a.v == b.v, on, "a != b") CASE(NotEqual(a, b), a.v != b.v, on, "a expected != b") }
HARNESS(order) { num x{sym_int("x")}, lim{sym_int("lim")}; CASE(GreaterThan(x, lim), x.v > lim.v, on, "x (n) <= n") CASE(GreaterEqual(x, lim), x.v >= lim.v, on, "x (n) < n") CASE(LessThan(x, lim), x.v < lim.v, on, "x (n) >= n") }
HARNESS(range) { num x{sym_int("x")}, lo{sym_int("lo")}, hi{sym_int("hi")}; CASE(InOpenRange(x, lo, hi), x.v > lo.v && x.v < hi.v, on, "x (n) was not in range (n,n)") }
HARNESS(range_text) { int x = sym_int_in("x", -12, 12), lo = sym_int_in("lo", -2, 11), hi = sym_int_in("hi", -1, 12); sym_assume(lo == -2 || lo == 11); sym_assume(hi == -1 || hi == 12); CASE(InOpenRange(x, lo, hi), x > lo && x < hi, on, "x (" + dec(x) + ") was not in range (" + dec(lo) + "," + dec(hi) + ")") }
HARNESS(order_text) { int x = sym_int_in("x", -3, 12), lim = sym_int_in("lim", -2, 10); CASE(GreaterThan(x, lim), x > lim, on, "x (" + dec(x) + ") <= " + dec(lim)) CASE(LessThan(x, lim), x < lim, on, "x (" + dec(x) + ") >= " + dec(lim)) }
HARNESS(reals) { double x = sym_real("x"), lo = sym_real("lo"), hi = sym_real("hi"); auto old = dbc::dbc_action; int calls = 0; dbc::dbc_action = [&](std::string const &, const char *, const char *, int) { calls++; }; bool r = InOpenRange(x, lo, hi); sym_assert(r == (x > lo && x < hi) && calls == (on && !r), "real-range"); calls = 0; bool q = GreaterEqual(x, lo); sym_assert(q == (x >= lo) && calls == (on && !q), "real-greater-equal"); calls = 0; bool p = LessThan(x, hi); sym_assert(p == (x < hi) && calls == (on && !p), "real-less"); calls = 0; bool o = GreaterThan(x, hi); sym_assert(o == (x > hi) && calls == (on && !o), "real-greater"); calls = 0; bool e = Equal(x, lo); sym_assert(e == (x == lo) && calls == (on && !e), "real-equal"); dbc::dbc_action = old; }
HARNESS(one_of) { int x = sym_int("x"); std::set<int> c; int n = sym_pick("n", 0, 3); bool in = false; for (int i = 0; i < n; i++) { int e = sym_int("e"); c.insert(e); in |= e == x; } if (on) CASE(OneOf(x, c), in, true, "x not in set") else CASE(OneOf(x, c), true, false, "") }
HARNESS(insist) { int a = sym_int("a"), b = sym_int("b"); CASEV(Insist(a < b, "a is less than b"), a < b, true, "a is less than b") }
HARNESS(contracts) { int a = sym_int("a"), b = sym_int("b"); int runs = 0; CASEV(Require((runs++, a < b), "pre"), a < b, on, "pre") sym_assert(runs == on, "require-evaluates-once"); CASEV(Check((runs++, a != b), "inv"), a != b, on, "inv") CASEV(Ensure((runs++, a >= b), "post"), a >= b, on, "post") sym_assert(runs == 3 * on, "contracts-evaluate-once"); }
HARNESS(once) { int ca = 0, cb = 0, cc = 0; num a{sym_int("a")}, b{sym_int("b")}, c{sym_int("c")}; auto fa = [&]() -> num & { ca++; return a; }; auto fb = [&]() -> num & { cb++; return b; }; auto fc = [&]() -> num & { cc++; return c; }; auto s = watch([&]() -> bool { bool r = Equal(fa(), fb()); return r; }); sym_assert(ca == 1 && cb == 1, "operands-once"); auto t = watch([&]() -> bool { bool r = LessThan(fa(), fc()); return r; }); sym_assert(ca == 2 && cc == 1, "operands-once-less"); }
HARNESS(assertf) { bool c = sym_bool("c"); int line = sym_int("line"), calls = 0, gl = 0; std::string gc; const char *gf = nullptr, *gn = nullptr; dbc::action_t rec = [&](std::string const &cond, const char *f, const char *n, int l) { calls++; gc = cond; gf = f; gn = n; gl = l; }; const char *file = "some/file.cc", *func = "fn"; bool r = dbc::assertf(c, "cond text", file, func, line, rec); sym_assert(r == c && calls == !c, "assertf"); if (!c) sym_assert(gc == "cond text" && gf == file && gn == func && gl == line, "assertf-arguments");
  int gens = 0; auto gen = [&]() { gens++; return std::string("made"); }; calls = 0; r = dbc::assertf_l(c, gen, file, func, line, rec); sym_assert(r == c && calls == !c && gens == !c, "assertf-lazy"); if (!c) sym_assert(gc == "made" && gf == file && gn == func && gl == line, "assertf-lazy-arguments"); }
HARNESS(message) { std::string cond; int n = sym_pick("n", 0, 2); for (int i = 0; i < n; i++) cond.push_back(sym_char("c")); int line = sym_int_in("line", 0, 120); std::string m = dbc::build_message(cond, "a/b.cc", "fun", line); sym_assert(m == std::string("a/b.cc:") + dec(line) + ":fun assertion '" + cond + "' failed.\n", "message"); }
HARNESS(errors) { using namespace ristra::assertions; bool c = sym_bool("c"); int k = sym_pick("k", 0, 4); int got = 0; std::string w; try { switch (k) { case 0: if (c) THROW_RUNTIME_ERROR("m" << 1); break; case 1: if (c) THROW_LOGIC_ERROR("m"); break; case 2: if (c) THROW_IMPLEMENTED_ERROR("m"); break; case 3: if (c) THROW_FILE_ERROR("the/file"); break; default: assert_true(!c, "m" << 2); } } catch (const ExceptionRunTime &) { got = 1; } catch (const ExceptionLogic &) { got = 2; } catch (const ExceptionNotImplemented &) { got = 3; } catch (const ExceptionFileError &e) { got = 4; w = e.what(); }
  static const int want[] = {1, 2, 3, 4, 1}; sym_assert(got == (c ? want[k] : 0), "error-type"); if (got == 4) sym_assert(has(w, "the/file"), "file-error-name"); }
HARNESS(errors_base) { using namespace ristra::assertions; int k = sym_pick("k", 0, 5); int got = 0; try { switch (k) { case 0: throw ExceptionRunTime(); case 1: throw ExceptionFileError("f"); case 2: throw ExceptionConvergenceFailure(); case 3: throw ExceptionFloatingPoint(); case 4: throw ExceptionLogic(); default: throw ExceptionNotImplemented(); } } catch (const std::runtime_error &) { got = 1; } catch (const std::logic_error &) { got = 2; } sym_assert(got == (k < 4 ? 1 : 2), "error-base"); }
HARNESS(assert_else) { bool a = sym_bool("a"), c = sym_bool("c"); bool other = false, threw = false; try { if (a) assert_true(c, "m"); else other = true; } catch (const std::runtime_error &) { threw = true; } sym_assert(threw == (a && !c), "assert-true-throws"); sym_assert(other == !a, "assert-true-statement"); }
// long condition texts, names and any line number
HARNESS(message_long) { static const int sizes[] = {15, 16, 31, 64, 127, 200, 1030}; int n = sizes[sym_pick("n", 0, 6)]; std::string cond; for (int i = 0; i < n; i++) cond.push_back(i == 0 || i == n / 2 || i == n - 1 ? sym_char("c") : char('a' + i % 26)); std::string file(n / 2, 'f'), func(n, 'g'); static const int lines[] = {0, 9, 10, 999, 32768, 65536, 1234567, 2147483647, -1}; int line = lines[sym_pick("line", 0, 8)]; std::string m = dbc::build_message(cond, file.c_str(), func.c_str(), line); sym_assert(m == file + ":" + dec(line) + ":" + func + " assertion '" + cond + "' failed.\n", "message-long"); }
HARNESS(text_long) { std::string t = "the quantity has to be positive, finite and smaller than the one of the previous step, whatever the number of steps that were taken"; bool c = sym_bool("c"); CASEV(Insist(c, t), c, true, t) num a_variable_with_a_rather_long_name{sym_int("a")}, another_variable_with_a_rather_long_name{sym_int("b")}; CASE(Equal(a_variable_with_a_rather_long_name, another_variable_with_a_rather_long_name), a_variable_with_a_rather_long_name.v == another_variable_with_a_rather_long_name.v, on, "a_variable_with_a_rather_long_name != another_variable_with_a_rather_long_name") }
#define COUNTED auto old = dbc::dbc_action; int calls = 0; dbc::dbc_action = [&](std::string const &, const char *, const char *, int) { calls++; };
HARNESS(unsigned_range) { val<unsigned> x{(unsigned)sym_int("x")}, lo{(unsigned)sym_int("lo")}, hi{(unsigned)sym_int("hi")}; COUNTED bool r = InOpenRange(x, lo, hi); sym_assert(r == (x > lo && x < hi) && calls == (on && !r), "unsigned-range"); dbc::dbc_action = old; }
HARNESS(unsigned_greater) { val<unsigned long> x{(unsigned long)sym_long("x")}, lo{(unsigned long)sym_long("lo")}; COUNTED bool r = GreaterThan(x, lo); sym_assert(r == (x > lo) && calls == (on && !r), "unsigned-greater"); dbc::dbc_action = old; }
HARNESS(unsigned_greater_equal) { val<unsigned long> x{(unsigned long)sym_long("x")}, lo{(unsigned long)sym_long("lo")}; COUNTED bool r = GreaterEqual(x, lo); sym_assert(r == (x >= lo) && calls == (on && !r), "unsigned-greater-equal"); dbc::dbc_action = old; }
HARNESS(unsigned_less) { val<unsigned long> x{(unsigned long)sym_long("x")}, lo{(unsigned long)sym_long("lo")}; COUNTED bool r = LessThan(x, lo); sym_assert(r == (x < lo) && calls == (on && !r), "unsigned-less"); dbc::dbc_action = old; }
HARNESS(long_equal) { long x = sym_long("x"), lo = sym_long("lo"); COUNTED bool r = Equal(x, lo); sym_assert(r == (x == lo) && calls == (on && !r), "long-equal"); calls = 0; r = NotEqual(x, lo); sym_assert(r == (x != lo) && calls == (on && !r), "long-not-equal"); dbc::dbc_action = old; }
HARNESS(one_of_others) { auto old = dbc::dbc_action; int calls = 0; dbc::dbc_action = [&](std::string const &, const char *, const char *, int) { calls++; };
  { int x = sym_int("x"), e = sym_int("e"), f = sym_int("f"); std::multiset<int> c{e, f, e, f}; bool r = OneOf(x, c); bool in = x == e || x == f; sym_assert(r == (on ? in : true) && calls == (on && !in), "one-of-multiset"); }
  { calls = 0; std::string k; int n = sym_pick("n", 0, 2); for (int i = 0; i < n; i++) k.push_back(sym_char("k")); std::set<std::string> c{"a", "", "ab"}; bool r = OneOf(k, c); bool in = k == "a" || k == "" || k == "ab"; sym_assert(r == (on ? in : true) && calls == (on && !in), "one-of-strings"); }
  { calls = 0; long x = sym_long("l"); std::set<long> c; int m = sym_pick("m", 0, 1) ? 12 : 7; for (int i = 0; i < m; i++) c.insert(i * 1000003L - 4000000L); bool in = false; for (int i = 0; i < m; i++) in |= x == i * 1000003L - 4000000L; bool r = OneOf(x, c); sym_assert(r == (on ? in : true) && calls == (on && !in), "one-of-many"); }
  dbc::dbc_action = old; }
// failures one after another: each is reported once, in order, and passing ones in between say nothing
HARNESS(sequence) { int a = sym_int("a"), b = sym_int("b"), c = sym_int("c"); int thrown = 0; std::stringstream out; auto *old = dbc::p_str; dbc::p_str = &out; std::string want; std::string got; int l = 0;
  auto note = [&](const char *what) { if (act != 0) want += std::string(__FILE__) + ":" + dec(l) + ":operator() assertion '" + what + "' failed.\n"; };
  for (int k = 0; k < 2; k++) {
    try { [&] { l = __LINE__; Insist(a < b, "first"); }(); } catch (const std::logic_error &e) { thrown++; got += e.what(); } if (!(a < b)) note("first");
    try { [&] { l = __LINE__; Insist(b < c, "second"); }(); } catch (const std::logic_error &e) { thrown++; got += e.what(); } if (!(b < c)) note("second"); }
  dbc::p_str = old; if (act != 1) got = out.str(); sym_assert(got == want, "reports-in-order"); sym_assert(thrown == (act == 1 ? 2 * (!(a < b) + !(b < c)) : 0), "each-throws"); }
#if MODE == 3
HARNESS(here) { int line = sym_int_in("line", thorough ? 0 : 96, 103); std::string s; int n = sym_pick("n", 0, 2); for (int i = 0; i < n; i++) s.push_back(sym_char("c")); sym_assert(ristra::assertions::here_str_func("f.cc", "fn", line, s) == "f.cc:fn:" + dec(line) + " " + s, "here"); std::string h = HERE_STR("msg"); int l = __LINE__; sym_assert(h == std::string(__FILE__) + ":" + __FUNCTION__ + ":" + dec(l) + " msg", "here-macro"); }
#endif
