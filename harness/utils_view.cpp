// Multidimensional array views, bounds and indices.
#include "sym.h"
#include <array>
#include <vector>
#include <cstddef>
#include <iterator>
#include <functional>
#include <stdexcept>
#include <ristra/utils/array_view.h>
using namespace ristra::utils; using std::size_t; using std::vector; using std::ptrdiff_t;
using I1 = index_t<1>; using I2 = index_t<2>; using I3 = index_t<3>;
template<class F> static bool throws(F f) { bool t = false; try { f(); } catch (const std::out_of_range &) { t = true; } return t; }
static I2 any2(const char *n) { ptrdiff_t a = sym_long(n), b = sym_long(n); return I2(a, b); }
static I3 any3(const char *n) { ptrdiff_t a = sym_long(n), b = sym_long(n), c = sym_long(n); return I3(a, b, c); }
static bool in(ptrdiff_t i, ptrdiff_t n) { return i >= 0 && i < n; }
// ---- indices
HARNESS(index_arith) {
  I3 a = any3("a"), b = any3("b"), z; sym_assert(z[0] == 0 && z[1] == 0 && z[2] == 0, "index-default");
  I3 s = a + b, d = a - b, m = -a, p = +a, t = a; t += b; I3 u = a; u -= b; long k = sym_long("k"); I3 x = a * k, y = k * a, w = a; w *= k;
  for (int i = 0; i < 3; i++) { sym_assert(s[i] == a[i] + b[i] && t[i] == s[i], "index-add"); sym_assert(d[i] == a[i] - b[i] && u[i] == d[i], "index-sub"); sym_assert(m[i] == -a[i] && p[i] == a[i], "index-sign"); sym_assert(x[i] == a[i] * k && y[i] == x[i] && w[i] == x[i], "index-scale"); }
  bool eq = a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; sym_assert((a == b) == eq && (a != b) == !eq, "index-equal"); bool le = a[0] <= b[0] && a[1] <= b[1] && a[2] <= b[2]; sym_assert((a <= b) == le, "index-le"); sym_assert((b >= a) == le, "index-ge");
  I2 sh = a.shift_left(); sym_assert(sh[0] == a[1] && sh[1] == a[2], "index-shift"); sym_assert(a.get<0>() == (size_t)a[0] && a.get<2>() == (size_t)a[2] && a.as_array()[1] == a[1], "index-get"); sym_assert(a.begin() == &a[0] && a.end() == &a[0] + 3, "index-range");
  I3 c = a, e = b; c.swap(e); sym_assert(c == b && e == a, "index-swap"); size_t q = sym_bits("q", 64); const I3 &ca = a; sym_assert(throws([&] { a.at(q); }) == (q >= 3) && throws([&] { ca.at(q); }) == (q >= 3), "index-at-range"); if (q < 3) sym_assert(&a.at(q) == &a[q] && &ca.at(q) == &ca[q], "index-at");
}
HARNESS(index_div) { int d = sym_pick("d", 1, 5), s = sym_pick("s", 0, 1); if (s) d = -d; int v[3]; for (int &x : v) x = sym_int_in("v", -1000, 1000); I3 a(v[0], v[1], v[2]), q = a / d; a /= d; for (int i = 0; i < 3; i++) sym_assert(q[i] == v[i] / d && a[i] == q[i], "index-divide"); }
HARNESS(index_make) { ptrdiff_t v[3] = {sym_long("a"), sym_long("b"), sym_long("c")}; I3 a(v), b(std::array<ptrdiff_t, 3>{{v[0], v[1], v[2]}}), c{v[0], v[1], v[2]}; int s = sym_int("s"); unsigned u = sym_int("u"); char h = sym_char("h"); I3 d(s, u, h); sym_assert(a == b && b == c && a[0] == v[0] && a[1] == v[1] && a[2] == v[2], "index-build"); sym_assert(d[0] == s && d[1] == (ptrdiff_t)u && d[2] == h, "index-widen");
  I1 i(v[0]), j = i++; sym_assert(j[0] == v[0] && i[0] == v[0] + 1, "index-post-inc"); j = ++i; sym_assert(j[0] == v[0] + 2 && i == j, "index-pre-inc"); j = i--; sym_assert(j[0] == v[0] + 2 && i[0] == v[0] + 1, "index-post-dec"); j = --i; sym_assert(j[0] == v[0] && i == j, "index-pre-dec"); }
// ---- bounds: any extents (kept small enough that the products do not overflow)
template<class B> static void bounds3(B b, const ptrdiff_t (&n)[3]) {
  sym_assert(b[0] == n[0] && b[1] == n[1] && b[2] == n[2] && b.template extent<0>() == (size_t)n[0] && b.template extent<1>() == (size_t)n[1] && b.template extent<2>() == (size_t)n[2], "bounds-extents"); sym_assert(b.as_index() == I3(n), "bounds-as-index");
  sym_assert(b.strides()[0] == n[1] * n[2] && b.strides()[1] == n[2] && b.strides()[2] == 1 && b.stride() == n[1] * n[2], "bounds-strides"); sym_assert(b.size() == (size_t)(n[0] * n[1] * n[2]), "bounds-size");
  I3 i = any3("i"); sym_assert(b.contains(i) == (in(i[0], n[0]) && in(i[1], n[1]) && in(i[2], n[2])), "bounds-contains"); sym_assert(b.linearize(i) == i[0] * (n[1] * n[2]) + i[1] * n[2] + i[2], "bounds-linearize");
  auto s = b.slice(); sym_assert(s[0] == n[1] && s[1] == n[2] && s.strides()[0] == n[2] && s.strides()[1] == 1 && s.size() == (size_t)(n[1] * n[2]), "bounds-slice");
}
static void dims(ptrdiff_t (&n)[3]) { for (auto &x : n) { x = sym_long("n"); sym_assume(x >= 0 && x <= 1000); } }
HARNESS(strided_bounds) { ptrdiff_t n[3]; dims(n); if (sym_pick("make", 0, 1)) bounds3(strided_bounds<3>(n), n); else bounds3(strided_bounds<3>(n[0], n[1], n[2]), n); }
HARNESS(strided_total) { ptrdiff_t n[3]; dims(n); for (auto x : n) sym_assume(x > 0); sym_assert(strided_bounds<3>(n).total_size() == (size_t)(n[0] * n[1] * n[2]), "bounds-total"); }
HARNESS(contiguous_bounds) { ptrdiff_t n[3]; dims(n); int m = sym_pick("make", 0, 2); if (m == 0) bounds3(contiguous_bounds<3>(n), n); else if (m == 1) bounds3(contiguous_bounds<3>(n[0], n[1], n[2]), n); else bounds3(contiguous_bounds<3>(I3(n)), n); sym_assert(contiguous_bounds<3>(n).total_size() == (size_t)(n[0] * n[1] * n[2]), "bounds-total"); }
HARNESS(array_bounds) { static int r[2][3][4]; ptrdiff_t n[3] = {2, 3, 4}; int m = sym_pick("kind", 0, 2); if (m == 0) bounds3(strided_bounds<3>(r), n); else if (m == 1) bounds3(contiguous_bounds<3>(r), n); else bounds3(static_bounds<2, 3, 4>(), n); static_bounds<5> o; I1 i(sym_long("j")); sym_assert(o.size() == 5 && o.stride() == 1 && o.linearize(i) == i[0] && o.contains(i) == in(i[0], 5), "static-1d"); }
HARNESS(strided_any) { // bounds and strides of any kind
  I3 n = any3("n"), s = any3("s"), i = any3("i"); strided_bounds<3> b(n, s); sym_assert(b.linearize(i) == i[0] * s[0] + i[1] * s[1] + i[2] * s[2], "strided-linearize"); sym_assert(b.strides() == s && b.stride() == s[0] && b.as_index() == n, "strided-parts"); auto t = b.slice(); sym_assert(t.as_index() == n.shift_left() && t.strides() == s.shift_left(), "strided-slice");
  ptrdiff_t v[3] = {n[0], n[1], n[2]}; strided_bounds<3> c(v, s); sym_assert(c.as_index() == n && c.strides() == s, "strided-build"); I3 k = any3("k"); strided_bounds<3> d(k, s); bool eq = n == k; sym_assert((b == d) == eq && (b != d) == !eq, "bounds-equal"); contiguous_bounds<3> e(n), f(k); sym_assert((e == f) == eq && (e != f) == !eq, "contiguous-equal"); }
HARNESS(strided_total_any) { ptrdiff_t n[2], s[2]; for (int i = 0; i < 2; i++) { n[i] = sym_long("n"); s[i] = sym_long("s"); sym_assume(n[i] > 0 && n[i] < 1000 && s[i] > 0 && s[i] < 1000); } strided_bounds<2> b{I2(n), I2(s)}; sym_assert(b.total_size() == (size_t)(1 + (n[0] - 1) * s[0] + (n[1] - 1) * s[1]), "strided-total"); }
// ---- walking over the indices of a box
template<class B> static void walk(B b, int n0, int n1, int S = 1) {
  int n = n0 * n1, k = 0; auto it = b.begin(); auto e = b.end(); sym_assert(e - b.begin() == n, "walk-length");
  for (; it != e; ++it) { sym_assert(k < n, "walk-extra"); if (k >= n) break; sym_assert((*it)[0] == k / n1 && (*it)[1] == k % n1 && it->template get<1>() == (size_t)(k % n1), "walk-index"); sym_assert(it - b.begin() == k && e - it == n - k, "walk-difference"); k++; } sym_assert(k == n, "walk-count");
  auto r = b.end(); for (k = n; k-- > 0;) { --r; sym_assert((*r)[0] == k / n1 && (*r)[1] == k % n1, "walk-back"); } sym_assert(r == b.begin(), "walk-back-begin");
  if (n == 0) return;
  int i = sym_pick("i", 0, n / S) * S, j = sym_pick("j", 0, n / S) * S; auto p = b.begin() + i, q = j + b.begin(); if (i < n) sym_assert((*p)[0] == i / n1 && (*p)[1] == i % n1 && b.begin()[i] == *p, "jump-index"); else sym_assert(p == e, "jump-end");
  sym_assert(p - q == i - j, "jump-difference"); sym_assert((p == q) == (i == j) && (p != q) == (i != j), "iterator-equal"); sym_assert((p < q) == (i < j) && (p <= q) == (i <= j) && (p > q) == (i > j) && (p >= q) == (i >= j), "iterator-order");
  auto w = p; w += j - i; sym_assert(w == q, "jump-add"); w -= j - i; sym_assert(w == p && q - (j - i) == p, "jump-subtract"); if (i < n) { auto x = p, y = x++; sym_assert(y == p && x == p + 1, "walk-post"); auto v = x--; sym_assert(v == p + 1 && x == p, "walk-post-back"); }
}
HARNESS(walk_strided) { int a = sym_pick("a", 0, thorough ? 4 : 3), b = sym_pick("b", 0, 3); walk(strided_bounds<2>(a, b), a, b); }
HARNESS(walk_contiguous) { int a = sym_pick("a", 0, thorough ? 4 : 3), b = sym_pick("b", 0, 3); walk(contiguous_bounds<2>(a, b), a, b); }
HARNESS(walk_static) { walk(static_bounds<2, 3>(), 2, 3); }
HARNESS(walk_3d) { int a = sym_pick("a", 0, 2), b = sym_pick("b", 0, 2), c = sym_pick("c", 0, 2), k = 0, n = a * b * c; contiguous_bounds<3> bb(a, b, c); for (auto i : bb) { sym_assert(k < n, "walk3-extra"); if (k >= n) break; sym_assert(i == I3(k / (b * c), k / c % b, k % c), "walk3-index"); k++; } sym_assert(k == n, "walk3-count"); if (n) { int i = sym_pick("i", 0, n); auto p = bb.begin() + i; sym_assert(p - bb.begin() == i && bb.end() - p == n - i && (i < n || p == bb.end()), "walk3-jump"); } }
HARNESS(walk_1d) { int n = sym_pick("n", 0, 4), k = 0; strided_bounds<1> b(n); for (auto i : b) { sym_assert(i[0] == k, "walk1-index"); if (++k > n) break; } sym_assert(k == n, "walk1-count"); }
// one step from any place in a box of any extents
HARNESS(step) { ptrdiff_t n[3], c[3]; for (int i = 0; i < 3; i++) { n[i] = sym_long("n"); c[i] = sym_long("c"); sym_assume(n[i] > 0 && c[i] >= 0 && c[i] < n[i] && n[i] <= 1000); } strided_bounds<3> b(n); bounds_iterator<const I3> it(b, I3(c)), was = it; ++it;
  if (c[2] + 1 < n[2]) sym_assert(*it == I3(c[0], c[1], c[2] + 1), "step-inner"); else if (c[1] + 1 < n[1]) sym_assert(*it == I3(c[0], c[1] + 1, 0), "step-middle"); else if (c[0] + 1 < n[0]) sym_assert(*it == I3(c[0] + 1, 0, 0), "step-outer"); else sym_assert(it == b.end(), "step-end"); --it; sym_assert(it == was, "step-back"); }
// ---- views: the element named by an index
template<class V> static void element3(V v, int *r, const ptrdiff_t (&n)[3], const ptrdiff_t (&s)[3]) {
  sym_assert(v.data() == r && v.size() == (size_t)(n[0] * n[1] * n[2]) && v.bounds().as_index() == I3(n) && v.strides() == I3(s) && v.stride() == s[0], "view-shape"); sym_assert(v.template extent<0>() == (size_t)n[0] && v.template extent<2>() == (size_t)n[2] && v.rank() == 3, "view-extents"); sym_assert(bool(v) && v.empty() == (n[0] * n[1] * n[2] == 0), "view-empty");
  I3 i = any3("i"); bool ok = in(i[0], n[0]) && in(i[1], n[1]) && in(i[2], n[2]); const auto *p = r; bool t = throws([&] { p = &v.at(i); }); sym_assert(t == !ok, "at-range"); if (!ok) return; ptrdiff_t o = i[0] * s[0] + i[1] * s[1] + i[2] * s[2]; sym_assert(p == r + o, "at-element"); sym_assert(&v[i] == r + o, "index-element"); sym_assert(&v(i[0], i[1], i[2]) == r + o, "call-element"); sym_assert(v[i] == r[o], "element-value");
}
HARNESS(array_element) { int r[2][3][2]; ptrdiff_t n[3] = {2, 3, 2}, s[3] = {6, 2, 1}; for (auto &x : r) for (auto &y : x) for (auto &z : y) z = sym_int("r"); int k = sym_pick("kind", 0, 6); int *d = &r[0][0][0];
  if (k == 0) element3(array_view<int, 3>(r), d, n, s); else if (k == 1) element3(strided_array_view<int, 3>(r), d, n, s); else if (k == 2) element3(static_array_view<int, 2, 3, 2>(r), d, n, s); else if (k == 3) element3(make_array_view(r), d, n, s); else if (k == 4) element3(make_static_array_view(r), d, n, s); else if (k == 5) element3(array_view<const int, 3>(array_view<int, 3>(r)), d, n, s); else element3(strided_array_view<const int, 3>(strided_array_view<int, 3>(r)), d, n, s); }
HARNESS(container_element) { vector<int> v; for (int i = 0; i < 12; i++) v.push_back(sym_int("v")); ptrdiff_t n[3] = {sym_pick("a", 0, 3), sym_pick("b", 1, 2), sym_pick("c", 1, 2)}, s[3] = {n[1] * n[2], n[2], 1}; int k = sym_pick("kind", 0, 4); int *d = v.data();
  if (k == 0) element3(array_view<int, 3>(v, {n[0], n[1], n[2]}), d, n, s); else if (k == 1) element3(strided_array_view<int, 3>(v, {n[0], n[1], n[2]}), d, n, s); else if (k == 2) element3(make_array_view(v, n[0], n[1], n[2]), d, n, s); else if (k == 3) element3(array_view<int, 3>(d, {n[0], n[1], n[2]}), d, n, s); else element3(strided_array_view<int, 3>(d, {n[0], n[1], n[2]}), d, n, s); }
HARNESS(container_1d) { int m = sym_pick("m", 0, 4); vector<int> v; for (int i = 0; i < m; i++) v.push_back(sym_int("v")); array_view<int> a(v); strided_array_view<int> b(v); auto c = make_array_view(v); ptrdiff_t i = sym_long("i"); sym_assert(a.size() == (size_t)m && b.size() == (size_t)m && c.size() == (size_t)m && a.empty() == !m && b.empty() == !m, "container-size"); sym_assert(throws([&] { a.at(i); }) == !in(i, m) && throws([&] { b.at(i); }) == !in(i, m), "container-at-range"); if (in(i, m)) sym_assert(&a[{i}] == &v[i] && &b[{i}] == &v[i] && &c(i) == &v[i] && &a.at(i) == &v[i], "container-element"); std::array<int, 6> w{}; auto s = make_static_array_view<2, 3>(w); ptrdiff_t x = sym_long("x"), y = sym_long("y"); bool ok = in(x, 2) && in(y, 3); sym_assert(throws([&] { s.at({x, y}); }) == !ok, "static-at-range"); if (ok) sym_assert(&s.at({x, y}) == &w[3 * x + y], "static-element"); }
// write through a view changes that element only
HARNESS(write) { int r[2][3], o[2][3]; for (int i = 0; i < 6; i++) (&r[0][0])[i] = (&o[0][0])[i] = sym_int("r"); int x = sym_int("x"); ptrdiff_t i = sym_int_in("i", 0, 1), j = sym_int_in("j", 0, 2); int k = sym_pick("kind", 0, 2); if (k == 0) array_view<int, 2>{r}(i, j) = x; else if (k == 1) strided_array_view<int, 2>{r}[{i, j}] = x; else static_array_view<int, 2, 3>{r}.at({i, j}) = x; for (int a = 0; a < 2; a++) for (int b = 0; b < 3; b++) sym_assert(r[a][b] == (a == i && b == j ? x : (&o[0][0])[a * 3 + b]), "write-one"); }
HARNESS(null_view) { int k = sym_pick("kind", 0, 2); int r[2][3] = {}; if (k == 0) { array_view<int, 2> v; sym_assert(v.empty() && !v && v.size() == 0 && v.data() == nullptr && v.begin() == v.end(), "null-view"); v = array_view<int, 2>(r); sym_assert(!v.empty() && v && v.data() == r[0], "assigned-view"); array_view<int, 2> w; w.swap(v); sym_assert(v.empty() && w.size() == 6, "swapped-view"); w.clear(); sym_assert(w.empty() && !w && w.size() == 0, "cleared-view"); }
  else if (k == 1) { strided_array_view<int, 2> v; sym_assert(v.empty() && !v && v.size() == 0 && v.data() == nullptr && v.begin() == v.end(), "null-view"); v = strided_array_view<int, 2>(r); sym_assert(!v.empty() && v && v.data() == r[0] && v.strides() == I2(3, 1), "assigned-view"); strided_array_view<int, 2> w; w.swap(v); sym_assert(v.empty() && w.size() == 6 && w.strides() == I2(3, 1), "swapped-view"); w.clear(); sym_assert(w.empty() && !w && w.size() == 0, "cleared-view"); strided_array_view<const int, 2> c; c = strided_array_view<int, 2>(r); sym_assert(c.data() == r[0] && c.size() == 6 && c.strides() == I2(3, 1), "const-assign"); }
  else { static_array_view<int, 2, 3> v; sym_assert(v.empty() && !v && v.data() == nullptr, "null-view"); v = static_array_view<int, 2, 3>(r); sym_assert(!v.empty() && v && v.data() == r[0], "assigned-view"); static_array_view<int, 2, 3> w; w.swap(v); sym_assert(v.empty() && w.data() == r[0], "swapped-view"); static_array_view<const int, 2, 3> c; auto &d = (c = w); sym_assert(c.data() == r[0] && &d == &c, "const-assign"); w.clear(); sym_assert(w.empty() && !w, "cleared-view"); } }
// ---- slices and sections
template<class V> static void slice3(V v, int *r) { size_t i = sym_bits("i", 64); sym_assert(throws([&] { v.slice(i); }) == (i >= 2), "slice-range"); if (i >= 2) return; auto s = v.slice(i); auto t = v[i]; sym_assert(s.data() == r + 6 * i && t.data() == s.data() && s.size() == 6 && s.strides() == I2(2, 1) && s.bounds().as_index() == I2(3, 2), "slice-shape"); ptrdiff_t j = sym_int_in("j", 0, 2), k = sym_int_in("k", 0, 1); sym_assert(&s(j, k) == r + 6 * i + 2 * j + k && &t[{j, k}] == &v(i, j, k), "slice-element"); size_t q = sym_bits("q", 64); sym_assert(throws([&] { s.slice(q); }) == (q >= 3), "slice-slice-range"); if (q < 3) { auto u = s.slice(q); sym_assert(u.data() == r + 6 * i + 2 * q && u.size() == 2 && &u(k) == r + 6 * i + 2 * q + k, "slice-slice"); } }
HARNESS(slice) { int r[2][3][2] = {}; int k = sym_pick("kind", 0, 2); int *d = &r[0][0][0]; if (k == 0) slice3(array_view<int, 3>(r), d); else if (k == 1) slice3(strided_array_view<int, 3>(r), d); else slice3(static_array_view<int, 2, 3, 2>(r), d); }
template<class V> static void section2(V v, int *r) { int how = sym_pick("how", 0, 2); ptrdiff_t a = 0, b = 0, m = 3, n = 4; if (how) { a = sym_pick("a", 0, 2); b = sym_pick("b", 0, 3); m = 3 - a; n = 4 - b; } if (how == 2) { m = sym_pick("m", 0, m); n = sym_pick("n", 0, n); } auto s = how == 0 ? v.section() : how == 1 ? v.section({a, b}) : v.section({a, b}, {m, n}); sym_assert(s.size() == (size_t)(m * n) && s.data() == r + 4 * a + b && s.bounds().as_index() == I2(m, n) && s.strides() == I2(4, 1) && s.empty() == (m * n == 0), "section-shape");
  ptrdiff_t i = sym_long("i"), j = sym_long("j"); sym_assert(throws([&] { s.at({i, j}); }) == !(in(i, m) && in(j, n)), "section-range"); if (in(i, m) && in(j, n)) sym_assert(&s.at({i, j}) == &v(a + i, b + j), "section-element");
  int k = 0; for (int &x : s) { sym_assert(k < m * n, "section-extra"); if (k >= m * n) break; sym_assert(&x == r + 4 * (a + k / n) + b + k % n, "section-walk"); k++; } sym_assert(k == m * n, "section-count"); k = m * n; for (auto q = s.rbegin(); q != s.rend(); ++q) { if (--k < 0) break; sym_assert(&*q == r + 4 * (a + k / n) + b + k % n, "section-reverse"); } sym_assert(k == 0, "section-reverse-count"); }
HARNESS(section) { int r[3][4] = {}; int k = sym_pick("kind", 0, 2); int *d = &r[0][0]; if (k == 0) section2(array_view<int, 2>(r), d); else if (k == 1) section2(strided_array_view<int, 2>(r), d); else section2(static_array_view<int, 3, 4>(r), d); }
HARNESS(section_of_section) { int r[4][5] = {}; strided_array_view<int, 2> v(r); int a = sym_pick("a", 0, 2), b = sym_pick("b", 0, 2), c = sym_pick("c", 0, 1), d = sym_pick("d", 0, 1); auto s = v.section({a, b}, {2, 3}).section({c, d}); sym_assert(s.size() == (size_t)((2 - c) * (3 - d)) && &s(0, 0) == &r[a + c][b + d] && &s(1 - c, 2 - d) == &r[a + 1][b + 2], "nested-section"); auto row = s.slice(0); sym_assert(row.data() == &r[a + c][b + d] && row.size() == (size_t)(3 - d), "section-row"); }
// ---- walking over the elements
template<class V> static void elements(V v, int *r, int n) {
  int k = 0; for (auto &x : v) { sym_assert(k < n, "view-extra"); if (k >= n) break; sym_assert(&x == r + k, "view-walk"); k++; } sym_assert(k == n, "view-count"); k = 0; for (auto q = v.cbegin(); q != v.cend(); ++q) { if (k >= n) break; sym_assert(&*q == r + k && q.operator->() == r + k, "view-cwalk"); k++; } sym_assert(k == n && v.cend() - v.cbegin() == n, "view-ccount");
  k = n; for (auto q = v.rbegin(); q != v.rend(); ++q) { if (k-- <= 0) break; sym_assert(&*q == r + k, "view-reverse"); } sym_assert(k == 0, "view-reverse-count"); k = n; for (auto q = v.crbegin(); q != v.crend(); ++q) { if (k-- <= 0) break; sym_assert(&*q == r + k, "view-creverse"); } sym_assert(k == 0, "view-creverse-count");
  if (!n) return; int i = sym_pick("i", 0, n), j = sym_pick("j", 0, n); auto p = v.begin() + i, q = j + v.begin(); sym_assert(p - q == i - j && (p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p <= q) == (i <= j) && (p > q) == (i > j) && (p >= q) == (i >= j), "view-iterators"); if (i < n) sym_assert(&*p == r + i && v.begin()[i] == r[i], "view-jump"); else sym_assert(p == v.end(), "view-jump-end");
  auto w = p; w += j - i; sym_assert(w == q, "view-add"); w -= j - i; sym_assert(w == p && q - (j - i) == p, "view-subtract"); w.swap(q); sym_assert(q == p, "view-iterator-swap"); if (i < n) { auto x = p, y = x++; sym_assert(y == p && x == p + 1, "view-post"); y = x--; sym_assert(y == p + 1 && x == p, "view-post-back"); ++x; --x; sym_assert(x == p, "view-pre"); }
}
HARNESS(elements_contiguous) { int r[6]; for (int &x : r) x = sym_int("r"); int a = sym_pick("a", 0, 2), b = sym_pick("b", 0, 3); elements(array_view<int, 2>(r, {a, b}), r, a * b); }
HARNESS(elements_static) { int r[2][3]; for (auto &y : r) for (int &x : y) x = sym_int("r"); elements(static_array_view<int, 2, 3>(r), r[0], 6); }
// ---- comparison, conversion
static vector<int> vals(const char *n, int k) { vector<int> v; for (int i = 0; i < k; i++) v.push_back(sym_int(n)); return v; }
template<class V, class W> static void cmp(const V &v, const W &w, const vector<int> &a, const vector<int> &b) { sym_assert((v == w) == (a == b) && (v != w) == (a != b), "compare-equal"); sym_assert((v < w) == (a < b) && (v > w) == (b < a) && (v <= w) == !(b < a) && (v >= w) == !(a < b), "compare-order"); }
HARNESS(compare) { int n = sym_pick("n", 1, 2), m = sym_pick("m", 1, 2), k = sym_pick("kind", 0, 2); auto a = vals("a", 2 * n), b = vals("b", 2 * m); if (k == 0) cmp(array_view<int, 2>(a, {2, n}), array_view<int, 2>(b, {2, m}), a, b); else if (k == 1) cmp(strided_array_view<int, 2>(a, {n, 2}), strided_array_view<const int, 1>(b.data(), 2 * m), a, b); else { sym_assume(n == 2 && m == 2); cmp(static_array_view<int, 2, 2>(a), static_array_view<int, 1, 4>(b), a, b); } }
HARNESS(compare_strides) { auto a = vals("a", 4); strided_array_view<int, 1> v(a.data(), {2}, {1}), w(a.data(), {2}, {2}); cmp(v, w, {a[0], a[1]}, {a[0], a[2]}); strided_array_view<int, 2> x(a.data(), {2, 2}); cmp(x.section({0, 0}, {2, 1}), x.section({0, 0}, {1, 2}), {a[0], a[2]}, {a[0], a[1]}); array_view<int, 2> y(a, {2, 2}); array_view<int, 1> z(a); cmp(y, z, a, a); }
HARNESS(convert) { int r[2][3] = {}; array_view<int, 2> v(r); static_array_view<int, 2, 3> t(r); int k = sym_pick("kind", 0, 7); if (k == 0) { strided_array_view<int, 2> s = v; sym_assert(s.data() == r[0] && s.bounds().as_index() == I2(2, 3) && s.strides() == I2(3, 1), "to-strided"); } else if (k == 1) { strided_array_view<const int, 2> s = t; sym_assert(s.data() == r[0] && s.bounds().as_index() == I2(2, 3) && s.strides() == I2(3, 1), "static-to-strided"); } else if (k == 2) { array_view<const int, 2> s = t; sym_assert(s.data() == r[0] && s.bounds().as_index() == I2(2, 3) && s.strides() == I2(3, 1), "static-to-view"); } else if (k == 3) { array_view<int> f(v); sym_assert(f.data() == r[0] && f.size() == 6, "flatten"); strided_array_view<int, 2> q(r); strided_array_view<int> g(q); sym_assert(g.data() == r[0] && g.size() == 6 && g.stride() == 1, "flatten-strided"); } else if (k == 4) { array_view<const int, 2> c; c = v; sym_assert(c.data() == r[0] && c.size() == 6 && c.strides() == I2(3, 1), "const-assign-view"); }
  else if (k == 5) { auto s = (strided_array_view<int, 2>)t; sym_assert(s.data() == r[0] && s.strides() == I2(3, 1) && s.bounds().as_index() == I2(2, 3), "static-cast-strided"); } else if (k == 6) { auto s = (array_view<int, 2>)t; sym_assert(s.data() == r[0] && s.strides() == I2(3, 1) && s.bounds().as_index() == I2(2, 3), "static-cast-view"); } else { static_array_view<const int, 2, 3> c(t); sym_assert(c.data() == r[0] && c.size() == 6 && c.strides() == I2(3, 1) && c.stride() == 3, "static-const"); } }
// ---- larger boxes, rank 4, wide strides
HARNESS(walk_large) { int k = sym_pick("kind", 0, 3); if (k == 0) walk(strided_bounds<2>(7, 40), 7, 40, 70); else if (k == 1) walk(contiguous_bounds<2>(20, 15), 20, 15, 75); else if (k == 2) walk(static_bounds<3, 90>(), 3, 90, 45); else walk(strided_bounds<2>(I2(5, 60), I2(1000, 7)), 5, 60, 100); }
using I4 = index_t<4>;
template<class B> static void walk4(const B &b) { int k = 0; for (auto i : b) { sym_assert(k < 36, "walk4-extra"); if (k >= 36) break; sym_assert(i == I4(k / 18, k / 6 % 3, k / 3 % 2, k % 3), "walk4-index"); k++; } sym_assert(k == 36 && b.size() == 36, "walk4-count"); int n = sym_pick("n", 0, 36); auto p = b.begin() + n; sym_assert(p - b.begin() == n && b.end() - p == 36 - n, "walk4-jump"); auto q = b.end(); while (k-- > 0) { --q; sym_assert(*q == I4(k / 18, k / 6 % 3, k / 3 % 2, k % 3), "walk4-back"); } sym_assert(q == b.begin(), "walk4-begin"); }
HARNESS(walk_4d) { int k = sym_pick("kind", 0, 2); if (k == 0) walk4(strided_bounds<4>(2, 3, 2, 3)); else if (k == 1) walk4(contiguous_bounds<4>(2, 3, 2, 3)); else walk4(static_bounds<2, 3, 2, 3>()); }
HARNESS(element_4d) { static short r[2][3][2][3]; array_view<short, 4> v(r); strided_array_view<short, 4> s(r); static_array_view<short, 2, 3, 2, 3> t(r); ptrdiff_t x[4]; for (auto &c : x) c = sym_long("i"); I4 i(x); bool ok = in(x[0], 2) && in(x[1], 3) && in(x[2], 2) && in(x[3], 3); short *p = nullptr, *q = nullptr, *u = nullptr; sym_assert(throws([&] { p = &v.at(i); }) == !ok && throws([&] { q = &s.at(i); }) == !ok && throws([&] { u = &t.at(i); }) == !ok, "rank4-range"); if (ok) { short *e = &r[0][0][0][0] + x[0] * 18 + x[1] * 6 + x[2] * 3 + x[3]; sym_assert(p == e && q == e && u == e && &v[i] == e && &s[i] == e && &t[i] == e, "rank4-element"); } }
HARNESS(elements_large) { static int r[300]; for (int i = 0; i < 300; i++) r[i] = i; int kind = sym_pick("kind", 0, 2), k = 0; if (kind == 0) { array_view<int, 2> v(r, {15, 20}); for (auto &x : v) { sym_assert(&x == r + k, "large-walk"); k++; } } else if (kind == 1) { static_array_view<int, 10, 30> v(r); for (auto &x : v) { sym_assert(&x == r + k, "large-walk"); k++; } } else { strided_array_view<int, 2> v(r, {50, 6}); for (auto &x : v) { sym_assert(&x == r + k, "large-walk"); k++; } } sym_assert(k == 300, "large-walk-count");
  strided_array_view<int, 2> w(r, I2(10, 9), I2(30, 3)); k = 0; for (auto &x : w) { sym_assert(k < 90 && &x == r + 30 * (k / 9) + 3 * (k % 9), "wide-walk"); k++; } sym_assert(k == 90, "wide-count"); auto p = w.begin() + 47; sym_assert(&*p == r + 30 * 5 + 3 * 2 && p - w.begin() == 47 && w.end() - p == 43 && p[10] == 30 * 6 + 3 * 3, "wide-jump"); p -= 40; sym_assert(&*p == r + 21, "wide-back"); }
HARNESS(element_large) { static double r[40][50]; ptrdiff_t i = sym_long("i"), j = sym_long("j"); array_view<double, 2> v(r); static_array_view<double, 40, 50> t(r); strided_array_view<double, 2> s(r); bool ok = in(i, 40) && in(j, 50); const double *p = nullptr, *q = nullptr, *u = nullptr; sym_assert(throws([&] { p = &v.at({i, j}); }) == !ok && throws([&] { q = &t.at({i, j}); }) == !ok && throws([&] { u = &s.at({i, j}); }) == !ok, "large-range"); if (ok) { const double *e = r[0] + 50 * i + j; sym_assert(p == e && q == e && u == e && &v(i, j) == e && &t(i, j) == e && &s(i, j) == e, "large-element"); auto c = s.section({i, j}); sym_assert(&c(0, 0) == e && c.size() == (size_t)((40 - i) * (50 - j)), "large-section"); } }
HARNESS(compare_large) { vector<int> a, b; for (int i = 0; i < 300; i++) { a.push_back(i); b.push_back(i); } static const int at[] = {0, 1, 127, 128, 255, 256, 299}; int k = at[sym_pick("at", 0, 6)]; b[k] = sym_int("x"); cmp(array_view<int, 2>(a, {30, 10}), array_view<int, 2>(b, {30, 10}), a, b); cmp(strided_array_view<int, 1>(a), strided_array_view<int, 2>(b, {10, 30}), a, b); }
// boxes of more elements than a 32-bit number counts: nothing is read, only sizes, offsets and addresses
template<class B> void huge_bounds(const B &b, ptrdiff_t n, ptrdiff_t m) { sym_assert(b.size() == (size_t)n * (size_t)m && b.total_size() == (size_t)n * (size_t)m, "huge-size"); sym_assert(b[0] == n && b[1] == m && (ptrdiff_t)b.template extent<0>() == n && (ptrdiff_t)b.template extent<1>() == m, "huge-extent"); sym_assert(b.strides()[0] == m && b.strides()[1] == 1 && b.stride() == m, "huge-stride");
  ptrdiff_t i = sym_long("i"), j = sym_long("j"); sym_assert(b.contains(I2(i, j)) == (in(i, n) && in(j, m)), "huge-contains"); sym_assume(in(i, n)); sym_assume(in(j, m)); sym_assert(b.linearize(I2(i, j)) == i * m + j, "huge-linear"); }
template<class V> void huge_view(const V &v, ptrdiff_t n, ptrdiff_t m) { unsigned long base = 1ul << 20; sym_assert(v.size() == (size_t)n * (size_t)m && (ptrdiff_t)v.template extent<0>() == n && (ptrdiff_t)v.template extent<1>() == m, "huge-view-size"); ptrdiff_t i = sym_long("i"), j = sym_long("j"); sym_assume(in(i, n)); sym_assume(in(j, m));
  sym_assert((unsigned long)&v(i, j) == base + i * m + j && (unsigned long)&v[I2(i, j)] == base + i * m + j, "huge-view-address"); sym_assert((unsigned long)&v.at(I2(i, j)) == base + i * m + j, "huge-view-at"); }
HARNESS(huge_boxes) { static const ptrdiff_t N[] = {70000, 5000000000l, 3, 1l << 31, 2}, M[] = {70000, 2, 4294967297l, 1, 1l << 32}; int s = sym_pick("shape", 0, 4); ptrdiff_t n = N[s], m = M[s]; char *p = reinterpret_cast<char *>(1ul << 20); switch (sym_pick("kind", 0, 3)) { case 0: huge_bounds(strided_bounds<2>(n, m), n, m); break; case 1: huge_bounds(contiguous_bounds<2>(n, m), n, m); break; case 2: huge_view(array_view<char, 2>(p, {n, m}), n, m); break; case 3: huge_view(strided_array_view<char, 2>(p, {n, m}), n, m); break; } }
HARNESS(huge_static) { static_bounds<70000, 70000> b; sym_assert(b.size() == 4900000000ul, "huge-static-size"); sym_assert(b.strides()[0] == 70000, "huge-static-stride"); ptrdiff_t i = sym_int_in("i", 0, 69999), j = sym_int_in("j", 0, 69999); sym_assert(b.linearize(I2(i, j)) == i * 70000 + j, "huge-static-linear"); static_bounds<5000000000l> c; sym_assert(c.size() == 5000000000ul && c.template extent<0>() == 5000000000ul, "huge-static-1d"); }
HARNESS(huge_static_view) { static_array_view<char, 70000, 70000> v(*reinterpret_cast<char (*)[70000][70000]>(1ul << 20)); huge_view(v, 70000, 70000); }
HARNESS(huge_steps) { char *p = reinterpret_cast<char *>(1ul << 40); ptrdiff_t n = 6000000000l, k = sym_bits("k", 34), l = sym_bits("l", 32); sym_assume(k <= n); sym_assume(l <= k); int which = sym_pick("kind", 0, 2);
  if (which == 0) { array_view<char> v(p, {n}); auto a = v.begin(); a += k; sym_assert(a - v.begin() == k && (v.begin() + k) == a && (k < n) == (a != v.end()), "huge-step-contiguous"); a -= l; sym_assert(a - v.begin() == k - l && (v.begin() + k - l) == a, "huge-back-contiguous"); sym_assert(v.end() - v.begin() == n, "huge-range"); }
  else if (which == 1) { strided_array_view<char> v(p, {n}, {1}); auto a = v.begin(); a += k; sym_assert(a - v.begin() == k && (v.begin() + k) == a && (k < n) == (a != v.end()), "huge-step-strided"); a -= l; sym_assert(a - v.begin() == k - l && (v.begin() + k - l) == a, "huge-back-strided"); }
  else { strided_bounds<1> b(n); auto a = b.begin(); sym_assume(k < n); a += k; sym_assert((*a)[0] == k && (*(b.begin() + k))[0] == k, "huge-step-bounds"); a -= l; sym_assert((*a)[0] == k - l && (*(b.begin() + k - l))[0] == k - l, "huge-back-bounds"); } }
