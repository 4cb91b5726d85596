// Tuple, counting and array helpers.
#include "sym.h"
#include <array>
#include <functional>
#include <string>
#include <tuple>
#include <vector>
#include <ristra/utils/functional.h>
#include <ristra/utils/static_for.h>
#include <ristra/utils/template_helpers.h>
#include <ristra/utils/tuple_for_each.h>
#include <ristra/utils/tuple_to_array.h>
#include <ristra/utils/tuple_visit.h>
#include <ristra/utils/tuple_zip.h>
#include <ristra/utils/type_traits.h>
using namespace ristra; using std::size_t;
template<size_t N> static void count() { size_t n = 0; utils::static_for<N>([&](auto i) { sym_assert(i == n, "static-for-order"); n++; }); sym_assert(n == N, "static-for-count"); }
HARNESS(static_for) { count<0>(); count<1>(); count<2>(); count<5>(); count<17>(); int v = sym_int("v"); unsigned s = 0; auto f = [&](size_t i) { s = s * 3 + (unsigned)v * (unsigned)(i + 1); }; utils::static_for<3>(f); unsigned e = 0; for (unsigned i = 0; i < 3; i++) e = e * 3 + (unsigned)v * (i + 1); sym_assert(s == e, "static-for-body"); }
HARNESS(for_each) { int a = sym_int("a"); long b = sym_long("b"); char c = sym_char("c"); short d = sym_int("d"); std::tuple<int, long, char, short> t(a, b, c, d); long seen[4]; int k = 0; utils::tuple_for_each(t, [&](auto &x) { seen[k++] = x; x = (std::decay_t<decltype(x)>)(x ^ 1); }); sym_assert(k == 4 && seen[0] == a && seen[1] == b && seen[2] == c && seen[3] == d, "for-each-order"); sym_assert(t == std::make_tuple(a ^ 1, b ^ 1, (char)(c ^ 1), (short)(d ^ 1)), "for-each-writes");
  const auto ct = t; k = 0; utils::tuple_for_each(ct, [&](const auto &x) { seen[k++] = x; }); sym_assert(k == 4 && seen[0] == (a ^ 1) && seen[3] == (short)(d ^ 1), "for-each-const"); k = 0; utils::tuple_for_each(std::tuple<int>(a), [&](auto x) { k++; seen[0] = x; }); sym_assert(k == 1 && seen[0] == a, "for-each-one"); k = 0; utils::tuple_for_each(std::tuple<>(), [&](auto) { k++; }); sym_assert(k == 0, "for-each-none"); auto pr = std::make_pair(a, b); long sum[2]; k = 0; utils::tuple_for_each(pr, [&](auto x) { sum[k++] = x; }); sym_assert(k == 2 && sum[0] == a && sum[1] == b, "for-each-pair"); }
HARNESS(visit) { int a = sym_int("a"), b = sym_int("b"); long c = sym_long("c"), d = sym_long("d"); std::tuple<int, long, char> t(a, c, 1); std::tuple<long, int, short> u(d, b, 2); long s[9]; int k = 0; utils::tuple_visit([&](auto &x, auto &y) { s[k++] = x; s[k++] = y; x = (std::decay_t<decltype(x)>)y; }, t, u); sym_assert(k == 6 && s[0] == a && s[1] == d && s[2] == c && s[3] == b && s[4] == 1 && s[5] == 2, "visit-order"); sym_assert(std::get<0>(t) == (int)d && std::get<1>(t) == b && std::get<2>(t) == 2 && u == std::make_tuple(d, b, (short)2), "visit-writes"); k = 0; utils::tuple_visit([&](auto x) { s[k++] = x; }, u); sym_assert(k == 3 && s[0] == d && s[1] == b && s[2] == 2, "visit-one"); k = 0; const auto cu = u; utils::tuple_visit([&](auto x, auto y, auto z) { s[k++] = x; s[k++] = y; s[k++] = z; }, cu, u, std::make_tuple(a, a, a)); sym_assert(k == 9 && s[0] == d && s[1] == d && s[2] == a && s[3] == b && s[4] == b && s[5] == a && s[6] == 2 && s[8] == a, "visit-three"); }
// function objects that gather state
struct Gather { long s = 0; int n = 0; template<class T> void operator()(const T &v) { s = s * 3 + (long)v; n++; } template<class T, class U> void operator()(const T &v, const U &w) { s = s * 3 + (long)v - (long)w; n++; } };
HARNESS(gather) { int a = sym_int_in("a", -1000, 1000), b = sym_int_in("b", -1000, 1000); long c = sym_int_in("c", -1000, 1000); char d = sym_int_in("d", 0, 100); auto t = std::make_tuple(a, c, d, b); const long one = ((a * 3L + c) * 3 + d) * 3 + b, two = ((0L * 3 + (c - d)) * 3 + (d - c)) * 3 + (b - a); auto u = std::make_tuple(a, d, c, a);
  auto f = utils::tuple_visit(Gather{}, t); sym_assert(f.n == 4 && f.s == one, "visit-temporary-state"); Gather g; auto &r = g; utils::tuple_visit(r, t); sym_assert(g.n == 4 && g.s == one, "visit-named-state"); auto h = utils::tuple_visit(g, t); sym_assert(g.n == 8 && h.n == 8 && h.s == g.s, "visit-continues"); auto k = utils::tuple_visit(Gather{}, t, u); sym_assert(k.n == 4 && k.s == two, "visit-two-state"); Gather start; start.s = 7; auto l = utils::tuple_visit(start, std::make_tuple(a, b)); sym_assert(start.n == 2 && l.s == (21L + a) * 3 + b, "visit-start-state");
  Gather m; utils::tuple_for_each(t, m); sym_assert(m.n == 4 && m.s == one, "for-each-state"); Gather q; utils::static_for<5>(q); sym_assert(q.n == 5 && q.s == ((1 * 3 + 2) * 3 + 3) * 3 + 4, "static-for-state"); }
HARNESS(zip_tie) { int a = sym_int("a"), b = sym_int("b"); long c = sym_long("c"); double x = sym_real("x"); std::tuple<int, long, double> t(a, c, x); std::tuple<long, int, int> u(c, b, a); auto z = utils::tuple_zip(t, u); sym_assert(std::get<0>(z).first == a && std::get<0>(z).second == c && std::get<1>(z).first == c && std::get<1>(z).second == b && std::get<2>(z).second == a, "tuple-zip"); sym_eq(std::get<2>(z).first, x, "tuple-zip"); std::get<0>(z).first = 5; sym_assert(std::get<0>(t) == a, "tuple-zip-copies"); static_assert(std::tuple_size<decltype(z)>::value == 3);
  auto w = utils::tuple_tie(t, u); sym_assert(&std::get<0>(std::get<0>(w)) == &std::get<0>(t) && &std::get<1>(std::get<0>(w)) == &std::get<0>(u) && &std::get<0>(std::get<1>(w)) == &std::get<1>(t) && &std::get<1>(std::get<1>(w)) == &std::get<1>(u) && &std::get<0>(std::get<2>(w)) == &std::get<2>(t) && &std::get<1>(std::get<2>(w)) == &std::get<2>(u), "tuple-tie"); std::get<1>(std::get<1>(w)) = a; sym_assert(std::get<1>(u) == a, "tuple-tie-writes"); }
HARNESS(arrays) { int a = sym_int("a"), b = sym_int("b"), c = sym_int("c"); auto r = utils::to_array(std::make_tuple(a, b, c)); static_assert(std::is_same<decltype(r), std::array<int, 3>>::value); sym_assert(r[0] == a && r[1] == b && r[2] == c, "to-array"); auto o = utils::to_array(std::make_tuple(b)); sym_assert(o.size() == 1 && o[0] == b, "to-array-one"); auto m = utils::make_array<int, 4>(a); static_assert(std::is_same<decltype(m), std::array<int, 4>>::value); for (int x : m) sym_assert(x == a, "make-array"); auto f = utils::fill<3>::apply(b); static_assert(std::is_same<decltype(f), std::array<int, 3>>::value); for (int x : f) sym_assert(x == b, "fill-array"); auto f1 = utils::fill<1>::apply(c); sym_assert(f1.size() == 1 && f1[0] == c, "fill-array-one");
  std::string s("some text of more than a few characters"); auto ms = utils::make_array<std::string, 2>(s); sym_assert(ms[0] == s && ms[1] == s, "make-array-text"); auto e = utils::extract_extents<double[3][4][5]>(); sym_assert(e.size() == 3 && e[0] == 3 && e[1] == 4 && e[2] == 5, "extents"); auto e1 = utils::extract_extents<int[7]>(); sym_assert(e1.size() == 1 && e1[0] == 7, "extents-one"); }
HARNESS(products) { size_t a = sym_long("a"), b = sym_long("b"), c = sym_long("c"), d = sym_long("d"); sym_assert(utils::multiply() == 1 && utils::multiply(a) == a && utils::multiply(a, b) == a * b, "multiply"); sym_assert(utils::multiply(a, b, c, d) == a * b * c * d, "multiply-four"); double x = sym_real("x"), y = sym_real("y"); sym_eq(utils::multiply(x, y, x), x * x * y, "multiply-reals"); }
HARNESS(functions) { double x = sym_real("x"), y = sym_real("y"); int i = sym_int_in("i", -1000, 1000), j = sym_int_in("j", 1, 1000); sym_eq(utils::plus(x, y), x + y, "plus"); sym_eq(utils::minus(x, y), x - y, "minus"); sym_eq(utils::multiplies(x, y), x * y, "multiplies"); if (y != 0) sym_eq(utils::divides(x, y), x / y, "divides"); sym_assert(utils::plus(i, j) == i + j && utils::minus(i, j) == i - j && utils::multiplies(i, j) == i * j && utils::divides(i, j) == i / j, "integers"); sym_eq(utils::plus(i, 0.5), i + 0.5, "mixed"); sym_eq(utils::minus(0.5, i), 0.5 - i, "mixed"); sym_eq(utils::divides(x, j), x / j, "mixed"); sym_assert(utils::plus(std::string("a"), "b") == "ab", "text"); }
HARNESS(references) { int a = sym_int("a"), b = sym_int("b"); long c = sym_long("c"); auto t = utils::ctie(a, b, c); sym_assert(&std::get<0>(t) == &a && &std::get<1>(t) == &b && &std::get<2>(t) == &c, "ctie"); static_assert(std::is_same<decltype(t), std::tuple<int &, const int &, const long &>>::value); std::get<0>(t) = b; sym_assert(a == b, "ctie-writes"); static_assert(std::is_same<utils::reference_wrapper_t<std::tuple<int, long>>, std::tuple<int &, long &>>::value); utils::as_lvalue(std::vector<int>{a, b}).push_back(1); int &r = utils::as_lvalue(a); sym_assert(&r == &a, "as-lvalue"); }
// a counter can reach the count it was chosen for
template<size_t N> static void counter() { using C = utils::select_counter_t<N>; C c = (C)N; sym_assert(c > 0 && (size_t)c == N, "counter-range"); c = (C)(N - 1); c++; sym_assert((size_t)c == N, "counter-step"); }
HARNESS(counters) { counter<1>(); counter<127>(); counter<128>(); counter<255>(); counter<256>(); counter<32767>(); counter<32768>(); counter<65535>(); counter<65536>(); counter<2147483646>(); counter<2147483648ul>(); counter<4294967295ul>(); counter<4294967296ul>(); size_t k = 0; utils::select_counter_t<256> i = 0; for (; i < 256; i++) k++; sym_assert(k == 256, "counter-loop"); }
// longer tuples: every component arbitrary
template<size_t N, class F, size_t... I> auto built(F f, std::index_sequence<I...>) { return std::tuple{(typename std::conditional<I % 3 == 0, int, typename std::conditional<I % 3 == 1, long, short>::type>::type)f(I)...}; }
template<size_t N> auto longer(const char *n) { return built<N>([&](size_t) { return sym_int(n); }, std::make_index_sequence<N>{}); }
template<class T, size_t... I> void listed(const T &t, long *v, std::index_sequence<I...>) { ((v[I] = (long)std::get<I>(t)), ...); }
template<size_t N> void long_tuples() { auto t = longer<N>("t"); auto u = longer<N>("u"); long a[N], b[N], c[N]; listed(t, a, std::make_index_sequence<N>{}); listed(u, b, std::make_index_sequence<N>{}); size_t k = 0;
  utils::tuple_for_each(t, [&](auto &x) { sym_assert(k < N && (long)x == a[k], "long-for-each"); k++; }); sym_assert(k == N, "long-for-each-count"); k = 0; utils::tuple_visit([&](auto &x, auto &y) { sym_assert(k < N && (long)x == a[k] && (long)y == b[k], "long-visit"); k++; x = y; }, t, u); sym_assert(k == N, "long-visit-count"); listed(t, c, std::make_index_sequence<N>{}); for (size_t i = 0; i < N; i++) sym_assert(c[i] == b[i], "long-visit-writes");
  k = 0; auto z = utils::tuple_zip(t, u); utils::tuple_for_each(z, [&](auto &p) { sym_assert((long)p.first == b[k] && (long)p.second == b[k], "long-zip"); k++; }); sym_assert(k == N && std::tuple_size<decltype(z)>::value == N, "long-zip-count"); k = 0; utils::static_for<N>([&](auto i) { sym_assert(i == k, "long-loop"); k++; }); sym_assert(k == N, "long-loop-count"); }
HARNESS(long_8) { long_tuples<8>(); } HARNESS(long_13) { long_tuples<13>(); } HARNESS(long_20) { long_tuples<20>(); }
HARNESS(long_loops) { count<33>(); count<64>(); count<100>(); count<129>(); }
template<size_t... I> void same_type(std::index_sequence<I...>) { constexpr size_t N = sizeof...(I); int v[N]; for (int &x : v) x = sym_int("v"); auto r = utils::to_array(std::make_tuple(v[I]...)); sym_assert(r.size() == N, "long-to-array-size"); for (size_t i = 0; i < N; i++) sym_assert(r[i] == v[i], "long-to-array"); auto m = utils::make_array<int, N>(v[N - 1]); for (size_t i = 0; i < N; i++) sym_assert(m[i] == v[N - 1], "long-make-array"); size_t p = 1; for (size_t i = 0; i < N; i++) p *= (size_t)(i + 1); sym_assert(utils::multiply((size_t)(I + 1)...) == p, "long-product"); }
HARNESS(long_arrays) { same_type(std::make_index_sequence<6>{}); same_type(std::make_index_sequence<12>{}); same_type(std::make_index_sequence<20>{}); }
