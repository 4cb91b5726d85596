// Zipped iteration, filtered iteration, views, set helpers, tuple helpers, time split.
#include "sym.h"
#include <cassert>
#include <array>
#include <cstddef>
#include <iterator>
#include <list>
#include <tuple>
#include <vector>
#include <algorithm>
#include <functional>
#include <stdexcept>
#include <ristra/utils/zip.h>
#include <ristra/utils/tasks.h>
#include <ristra/utils/filter_iterator.h>
#include <ristra/utils/array_ref.h>
#include <ristra/utils/algorithm.h>
#include <ristra/utils/functional.h>
#include <ristra/utils/static_for.h>
#include <ristra/utils/tuple_for_each.h>
#include <ristra/utils/tuple_visit.h>
#include <ristra/utils/tuple_zip.h>
#undef RISTRA_ENABLE_MPI
#define THROW_RUNTIME_ERROR(x) throw std::runtime_error(x)
#include <ristra/utils/time_utils.h>
using namespace ristra; using std::size_t; using std::vector;
constexpr int L = thorough ? 5 : 4;
static vector<int> ints(const char *n, int k) { vector<int> v; for (int i = 0; i < k; i++) v.push_back(sym_int(n)); return v; }
// every index is visited once, in order, and the visited values are the containers' own elements
HARNESS(zip3) { int n = sym_pick("n", 0, L); auto a = ints("a", n), b = ints("b", n); std::list<int> c; for (int i = 0; i < n; i++) c.push_back(sym_int("c")); int k = 0; auto q = c.begin();
  for (auto t : utils::zip(a, b, c)) { sym_assert(k < n, "zip-bound"); sym_assert(&std::get<0>(t) == &a[k] && &std::get<1>(t) == &b[k] && &std::get<2>(t) == &*q, "zip-elements"); std::get<0>(t) = k; k++; ++q; } sym_assert(k == n, "zip-count"); for (int i = 0; i < n; i++) sym_assert(a[i] == i, "zip-write"); }
HARNESS(zip2) { int n = sym_pick("n", 0, L); auto a = ints("a", n), b = ints("b", n); int k = 0; for (auto t : utils::zip(a, b)) { sym_assert(&std::get<0>(t) == &a[k] && &std::get<1>(t) == &b[k], "zip2-elements"); k++; } sym_assert(k == n, "zip2-count"); }
HARNESS(zip1) { int n = sym_pick("n", 0, L); auto a = ints("a", n); int k = 0; for (auto t : utils::zip(a)) { sym_assert(&std::get<0>(t) == &a[k], "zip1-elements"); k++; } sym_assert(k == n, "zip1-count"); }
HARNESS(zip_iter) { vector<int> a = ints("a", 2), b = ints("b", 2); auto z = utils::zip(a, b); auto i = z.begin(); auto j = i++; sym_assert(j == z.begin() && i != z.begin(), "post-increment"); auto &k = ++i; sym_assert(k == z.end() && !(k != z.end()), "pre-increment"); auto t = *j; sym_assert(&std::get<1>(t) == &b[0], "deref"); }
HARNESS(task) { int n = sym_pick("n", 0, L); auto a = ints("a", n), b = ints("b", n); vector<int> c(n, 0), cnt(n, 0); int calls = 0; auto f = [&](int &x, int &y, int &z) { z = x ^ y; cnt[calls++]++; }; utils::simple_task(f, a, b, c); sym_assert(calls == n, "task-calls"); for (int i = 0; i < n; i++) sym_assert(c[i] == (a[i] ^ b[i]), "task-result"); }
HARNESS(filter) { int n = sym_pick("n", 0, L); int a[8], e[8], m = 0; int lim = sym_int("lim"); for (int i = 0; i < n; i++) { a[i] = sym_int("a"); if (a[i] < lim) e[m++] = i; } auto p = [lim](int x) { return x < lim; };
  using F = utils::filter_iterator<decltype(p), int *>; F i(p, a + 0, a + n), last(p, a + n, a + n); int k = 0; for (; i != last; ++i) { sym_assert(k < m, "filter-extra"); if (k < m) sym_assert(&*i == a + e[k] && i.operator->() == a + e[k], "filter-element"); k++; if (k > L) break; } sym_assert(k == m, "filter-count");
  if (m) { F s(p, a + 0, a + n); F o = s++; sym_assert(&*o == a + e[0], "filter-post"); sym_assert((s == last) == (m == 1), "filter-eq"); F w(p, a + n, a + n); w.swap(o); sym_assert(&*w == a + e[0] && o == last, "filter-swap"); }
  { F s(p, a + 0, a + n); utils::filter_iterator<decltype(p), const int *> cs(s); sym_assert(cs.begin() == s.begin() && cs.end() == a + n && cs.predicate()(lim) == false, "filter-convert"); F g(s); sym_assert(g.begin() == s.begin() && g.end() == a + n, "filter-copy"); }
  auto h = utils::make_filter_iterator(a + 0, a + n, [lim](int x) { return x < lim; }); k = 0; for (; h.begin() != h.end(); ++h) { if (k < m) sym_assert(*h == a[e[k]], "make-filter"); if (++k > L) break; } sym_assert(k == m, "make-filter-count"); }
HARNESS(view) {
  int a[5]; for (int i = 0; i < 5; i++) a[i] = sym_int("a"); size_t n = sym_pick("n", 0, 5); utils::array_ref<int> r(a, n); size_t pos = sym_bits("pos", 64), len = sym_bits("len", 64); int op = sym_pick("op", 0, 5);
  size_t b = 0, e = n;
  if (op == 1) { r = r.substr(pos, len); b = pos > n ? n : pos; e = len > n - b ? n : b + len; } else if (op == 2) { sym_assume(pos <= n); r.remove_prefix(pos); b = pos; } else if (op == 3) { sym_assume(pos <= n); r.remove_suffix(pos); e = n - pos; } else if (op == 4) { sym_assume(n > 0); r.pop_back(); r = utils::array_ref<int>(r); e = n - 1; if (n > 1) { r.pop_front(); b = 1; } } else if (op == 5) { r = r.substr(pos); b = pos > n ? n : pos; }
  sym_assert(r.size() == e - b && r.empty() == (e == b), "view-size"); sym_assert(r.begin() == a + b && r.end() == a + e && r.data() == a + b && r.cbegin() == a + b && r.cend() == a + e, "view-range");
  size_t i = sym_bits("i", 64); bool t = false; const int *q = nullptr; try { q = &r.at(i); } catch (const std::out_of_range &) { t = true; } sym_assert(t == (i >= e - b), "view-at-range"); if (!t && i < e - b) sym_assert(q == a + b + i && &r[i] == q, "view-at");
}
HARNESS(view_copy) { int a[4]; for (int i = 0; i < 4; i++) a[i] = sym_int("a"); size_t n = sym_pick("n", 0, 4); utils::array_ref<int> r(a, n); auto v = r.vec(); sym_assert(v.size() == n, "vec-size"); for (size_t i = 0; i < n; i++) sym_assert(v[i] == a[i], "vec"); if (n) { sym_assert(&r.front() == a && &r.back() == a + n - 1, "front-back"); sym_assert(&*r.rbegin() == a + n - 1 && r.rend() - r.rbegin() == (long)n, "view-reverse"); }
  utils::array_ref<int> w(v); sym_assert(w.size() == n && w.data() == v.data(), "from-vector"); utils::array_ref<int> x(a); sym_assert(x.size() == 4 && x.data() == a, "from-c-array"); std::array<int, 3> sa{{1, 2, 3}}; utils::array_ref<int> y(sa); sym_assert(y.size() == 3 && y.data() == sa.data(), "from-array"); sym_assert(utils::make_array_ref(v).size() == n && utils::make_array_ref(a).size() == 4 && utils::make_array_ref(sa).data() == sa.data() && utils::make_array_ref(a + 1, 2).data() == a + 1, "make"); r.clear(); sym_assert(r.empty() && r.size() == 0, "clear");
  std::string s("abc"); utils::array_ref<char> z(s); sym_assert(z.size() == 3 && z.str() == s, "string"); }
HARNESS(intersect) { int n = sym_pick("n", 0, 3), m = sym_pick("m", 0, 3); if (!thorough && n + m > 4) return; auto a = ints("a", n), b = ints("b", m), a0 = a, b0 = b; vector<int> o; utils::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o));
  for (size_t i = 0; i + 1 < o.size(); i++) sym_assert(o[i] <= o[i + 1], "intersection-sorted"); int x = sym_int("x"); int ca = 0, cb = 0, co = 0; for (int y : a0) ca += y == x; for (int y : b0) cb += y == x; for (int y : o) co += y == x; sym_assert(co == (ca < cb ? ca : cb), "intersection-multiplicity"); for (int i = 0; i < n; i++) sym_assert(a[i] == a0[i], "inputs-kept"); for (int i = 0; i < m; i++) sym_assert(b[i] == b0[i], "inputs-kept2"); }
HARNESS(dedup) { int n = sym_pick("n", 0, L); auto v = ints("v", n), e = v; vector<int> x; for (int i = 0; i < n; i++) if (x.empty() || x.back() != e[i]) x.push_back(e[i]); utils::remove_duplicates(v); sym_assert(v.size() == x.size(), "dedup-size"); for (size_t i = 0; i < x.size() && i < v.size(); i++) sym_assert(v[i] == x[i], "dedup-elements"); }
HARNESS(tuples) { int a = sym_int("a"); long b = sym_long("b"); char c = sym_char("c"); auto t = std::make_tuple(a, b, c); auto u = std::make_tuple((long)c, a, b); long seen[3]; int k = 0; utils::tuple_for_each(t, [&](auto &x) { seen[k++] = x; x = 1; }); sym_assert(k == 3 && seen[0] == a && seen[1] == b && seen[2] == c, "for-each"); sym_assert(t == std::make_tuple(1, 1l, (char)1), "for-each-writes");
  t = std::make_tuple(a, b, c); long s[6]; k = 0; utils::tuple_visit([&](auto x, auto y) { s[k++] = x; s[k++] = y; }, t, u); sym_assert(k == 6 && s[0] == a && s[1] == c && s[2] == b && s[3] == a && s[4] == c && s[5] == b, "visit");
  auto z = utils::tuple_zip(t, u); sym_assert(std::get<0>(z).first == a && std::get<0>(z).second == c && std::get<1>(z).first == b && std::get<1>(z).second == a && std::get<2>(z).first == c && std::get<2>(z).second == b, "tuple-zip");
  auto y = utils::tuple_tie(t, u); sym_assert(&std::get<0>(std::get<1>(y)) == &std::get<1>(t) && &std::get<1>(std::get<1>(y)) == &std::get<1>(u) && &std::get<0>(std::get<2>(y)) == &std::get<2>(t), "tuple-tie");
  int idx[5], m = 0; utils::static_for<5>([&](size_t i) { idx[m++] = i; }); sym_assert(m == 5, "static-for-count"); for (int i = 0; i < 5; i++) sym_assert(idx[i] == i, "static-for-order"); }
HARNESS(functional) { double x = sym_real("x"), y = sym_real("y"); sym_eq(utils::plus(x, y), x + y, "plus"); sym_eq(utils::minus(x, y), x - y, "minus"); sym_eq(utils::multiplies(x, y), x * y, "multiplies"); sym_assume(y != 0); sym_eq(utils::divides(x, y) * y, x, "divides"); int i = sym_int_in("i", -9999, 9999); long l = sym_long("l"); sym_assume(l > -99999 && l < 99999); sym_assert(utils::minus(i, l) == i - l && utils::multiplies(i, l) == i * l, "mixed"); }
HARNESS(hms) { static const long long days[] = {0, 30000, 49711, 1, 106751991167299ll, 31, 365, 100000, 7000000, 1ll << 40}; long long d0 = days[sym_pick("d", 0, thorough ? 9 : 4)]; int h0 = sym_pick("h", 0, 23), m0 = sym_int_in("m", 0, 59), k0 = sym_int_in("k", 0, 59); long long s = d0 * 86400ll + h0 * 3600 + m0 * 60 + k0, d; int h, m, k; utils::daysHoursMinutesSeconds(s, d, h, m, k); sym_assert(d == d0, "days"); sym_assert(h == h0, "hours"); sym_assert(m == m0, "minutes"); sym_assert(k == k0, "seconds"); }

THOROUGH_HARNESS(hms_ranges) { long long s = sym_long("s"), d; sym_assume(s >= 0); sym_assume(s < (1ll << (thorough ? 62 : 40))); int h, m, k; utils::daysHoursMinutesSeconds(s, d, h, m, k); sym_assert(h >= 0 && h < 24 && m >= 0 && m < 60 && k >= 0 && k < 60, "hms-ranges"); }
// larger and other containers
HARNESS(zip_large) { static const int sz[] = {1, 17, 128, 255, 256, 300}; int n = sz[sym_pick("n", 0, 5)]; vector<int> a(n); vector<double> b(n); vector<char> c(n, 'c'); std::list<long> d(n); int k = 0; auto q = d.begin(); for (auto t : utils::zip(a, b, c, d)) { sym_assert(k < n && &std::get<0>(t) == &a[k] && &std::get<1>(t) == &b[k] && &std::get<2>(t) == &c[k] && &std::get<3>(t) == &*q, "large-elements"); std::get<3>(t) = k; k++; ++q; } sym_assert(k == n, "large-count"); k = 0; for (long x : d) sym_assert(x == k++, "large-written");
  vector<int> z(n, 0), cnt(n, 0); int calls = 0; auto f = [&](int &x, const double &, int &y) { x = calls; y++; calls++; }; utils::simple_task(f, a, b, cnt); sym_assert(calls == n, "large-task"); for (int i = 0; i < n; i++) sym_assert(a[i] == i && cnt[i] == 1, "large-task-order"); }
HARNESS(zip_same) { int n = sym_pick("n", 0, 3); auto a = ints("a", n), a0 = a; std::array<int, 3> s{{1, 2, 3}}; vector<int> t3(3); int k = 0; for (auto t : utils::zip(a, a)) { sym_assert(&std::get<0>(t) == &a[k] && &std::get<1>(t) == &a[k], "same-container"); k++; } sym_assert(k == n, "same-count"); k = 0; for (auto t : utils::zip(s, t3)) { sym_assert(&std::get<0>(t) == &s[k] && &std::get<1>(t) == &t3[k], "std-array"); k++; } sym_assert(k == 3, "std-array-count");
  auto z = utils::zip(s, t3); for (int pass = 0; pass < 2; pass++) { k = 0; for (auto i = z.begin(); i != z.end(); ++i) { sym_assert(&std::get<1>(*i) == &t3[k], "second-pass"); k++; } sym_assert(k == 3, "second-pass-count"); } const auto &cz = z; (void)cz; }
HARNESS(filter_large) { static const int sz[] = {0, 1, 40, 256, 300}; int n = sz[sym_pick("n", 0, 4)], step = sym_pick("step", 0, 4), k = 0, m = 0; vector<int> a(n); for (int i = 0; i < n; i++) a[i] = i; auto p = [step](int x) { return step == 0 ? false : step == 4 ? x >= 250 || x == 0 : x % step == step - 1; }; for (int x : a) m += p(x);
  utils::filter_iterator<decltype(p), int *> i(p, a.data(), a.data() + n), last(p, a.data() + n, a.data() + n); int prev = -1; for (; i != last; ++i) { sym_assert(*i > prev && p(*i) && &*i == a.data() + *i, "filter-large"); prev = *i; k++; if (k > n) break; } sym_assert(k == m, "filter-large-count");
  std::list<int> l(a.begin(), a.end()); using LI = std::list<int>::iterator; utils::filter_iterator<decltype(p), LI> j(p, l.begin(), l.end()), je(p, l.end(), l.end()); k = 0; prev = -1; for (; j != je; j++) { sym_assert(*j > prev && p(*j), "filter-list"); prev = *j; if (++k > n) break; } sym_assert(k == m, "filter-list-count"); }
HARNESS(view_large) { static int a[400]; for (int i = 0; i < 400; i++) a[i] = i; utils::array_ref<int> r(a, 300); size_t pos = sym_bits("pos", 64), len = sym_bits("len", 64); auto s = r.substr(pos, len); size_t b = pos > 300 ? 300 : pos, e = len > 300 - b ? 300 : b + len; sym_assert(s.data() == a + b && s.size() == e - b, "large-substr"); auto t = r.substr(pos); sym_assert(t.data() == a + b && t.size() == 300 - b, "large-tail"); sym_assert(r.size() == 300 && r.data() == a, "source-view-kept");
  int k = 300; for (auto p = r.rbegin(); p != r.rend(); ++p) { --k; sym_assert(&*p == a + k, "view-reverse"); } sym_assert(k == 0, "view-reverse-count"); k = 300; for (auto p = r.crbegin(); p != r.crend(); ++p) { --k; sym_assert(&*p == a + k, "view-creverse"); } sym_assert(k == 0, "view-creverse-count"); auto v = r.vec(); auto w = static_cast<vector<int>>(r); sym_assert(v.size() == 300 && w.size() == 300, "view-vec-size"); for (int i = 0; i < 300; i++) sym_assert(v[i] == i && w[i] == i && r[i] == i, "view-vec"); sym_assert(&r.front() == a && &r.back() == a + 299, "view-ends"); auto m = utils::make_array_ref(a, 256); sym_assert(m.size() == 256 && m.data() == a, "make-view"); auto c = r; c.clear(); sym_assert(c.empty() && c.size() == 0 && r.size() == 300, "view-clear"); vector<double> d(290, 0.5); utils::array_ref<double> dr(d); sym_assert(dr.size() == 290 && &dr.back() == &d[289], "view-double"); }
HARNESS(algorithm_large) { vector<int> a, b, o; int x = sym_int("x"); sym_assume(x > 5 && x < 9); int n = sym_pick("n", 0, 2) * 20; for (int i = 0; i < n; i++) { a.push_back((i * 37) % 41); b.push_back((i * 23) % 29); } a.push_back(x); const auto a0 = a, b0 = b; utils::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(o)); sym_assert(a == a0 && b == b0, "inputs-kept"); for (size_t i = 1; i < o.size(); i++) sym_assert(o[i - 1] <= o[i], "large-intersection-sorted"); size_t tot = 0; for (int y = 0; y < 41; y++) { int ca = 0, cb = 0, co = 0; for (int q : a) ca += q == y; for (int q : b) cb += q == y; for (int q : o) co += q == y; sym_assert(co == (ca < cb ? ca : cb), "large-intersection"); tot += co; } sym_assert(tot == o.size(), "large-intersection-total");
  int out[64]; for (int &q : out) q = -1; int *end = utils::unsorted_set_intersection(a.begin(), a.end(), b.begin(), b.end(), out); sym_assert(end == out + o.size(), "intersection-end"); for (size_t i = 0; i < o.size(); i++) sym_assert(out[i] == o[i], "intersection-array"); sym_assert(out[o.size()] == -1, "intersection-bound"); }
HARNESS(dedup_large) { vector<int> v, e; int x = sym_int("x"); for (int i = 0; i < 300; i++) { int c = 1 + (i % 5 == 0) + 3 * (i == 130) + (i == 255); for (int k = 0; k < c; k++) v.push_back(i); e.push_back(i); } v[0] = v[1] = x; sym_assume(x < 0); e[0] = x; utils::remove_duplicates(v); sym_assert(v.size() == e.size(), "dedup-large-size"); for (size_t i = 0; i < v.size() && i < e.size(); i++) sym_assert(v[i] == e[i], "dedup-large"); std::list<int> l{1, 1, 2, 1, 1, 1, 3, 3}; utils::remove_duplicates(l); int w[] = {1, 2, 1, 3}, k = 0; sym_assert(l.size() == 4, "dedup-list-size"); for (int y : l) { if (k < 4) sym_assert(y == w[k], "dedup-list"); k++; } }
// views far larger than the memory of this machine: nothing is read, only lengths and addresses
HARNESS(view_huge) { const char *base = reinterpret_cast<const char *>(1ul << 20); size_t n = sym_bits("n", 40); utils::array_ref<char> r(base, n); size_t pos = sym_bits("pos", 40), len = sym_bits("len", 41); sym_assert(r.size() == n && r.empty() == (n == 0), "huge-size"); sym_assert((unsigned long)r.end() == (1ul << 20) + n && (unsigned long)r.cend() == (1ul << 20) + n, "huge-end");
  size_t b = pos > n ? n : pos, k = len > n - b ? n - b : len; auto s = r.substr(pos, len); sym_assert(s.size() == k && (unsigned long)s.data() == (1ul << 20) + b, "huge-substr"); sym_assume(pos <= n); auto t = r; t.remove_prefix(pos); sym_assert(t.size() == n - pos && (unsigned long)t.data() == (1ul << 20) + pos, "huge-prefix"); t = r; t.remove_suffix(pos); sym_assert(t.size() == n - pos && (unsigned long)t.data() == (1ul << 20), "huge-suffix");
  auto u = utils::make_array_ref(base, n); sym_assert(u.size() == n, "huge-make"); }
