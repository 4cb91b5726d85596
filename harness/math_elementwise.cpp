// Elementwise arithmetic, comparisons and assignment of math::array and
// math::multi_array, for every value of the elements.
#include "sym.h"
#include <ristra/math/array.h>
#include <ristra/math/multi_array.h>
#include <cstddef>
using namespace ristra::math;
template<class T> struct val;
template<> struct val<double> {
  static double any(const char *n) { return sym_real(n); }
  static double nz(const char *n) { double v = sym_real(n); sym_assume(v != 0); return v; }
  static void eq(double a, double b, const char *l) { sym_eq(a, b, l); }
};
template<> struct val<float> {
  static float any(const char *n) { return (float)sym_real(n); }
  static float nz(const char *n) { float v = any(n); sym_assume(v != 0); return v; }
  static void eq(float a, float b, const char *l) { sym_near(a, b, sym_native() ? 1e-3 * (a < 0 ? 1 - a : 1 + a) : 0, l); }
};
template<> struct val<int> {
  static int any(const char *n) { return sym_int(n); }
  static int nz(const char *n) { int v = sym_int(n); sym_assume(v != 0); sym_assume(v != -1); return v; }
  static void eq(int a, int b, const char *l) { sym_assert(a == b, l); }
};
template<> struct val<long> {
  static long any(const char *n) { return sym_long(n); }
  static long nz(const char *n) { long v = sym_long(n); sym_assume(v != 0); sym_assume(v != -1); return v; }
  static void eq(long a, long b, const char *l) { sym_assert(a == b, l); }
};
template<class A> A make(const char *n, bool nz = false) {
  using T = typename A::value_type; A a;
  for (std::size_t i = 0; i < A::size(); i++) a[i] = nz ? val<T>::nz(n) : val<T>::any(n);
  return a;
}
#define EACH(expr, want, label) { auto r_ = (expr); for (std::size_t i = 0; i < A::size(); i++) val<T>::eq(r_[i], (want), label); }
#define UPD(stmt, want, label) { A r_ = a; stmt; for (std::size_t i = 0; i < A::size(); i++) val<T>::eq(r_[i], (want), label); }
template<class A> void arith() {
  using T = typename A::value_type;
  const A a = make<A>("a"), b = make<A>("b"); const T s = val<T>::any("s");
  EACH(a + b, (T)(a[i] + b[i]), "a+b"); EACH(a - b, (T)(a[i] - b[i]), "a-b"); EACH(a * b, (T)(a[i] * b[i]), "a*b");
  EACH(a + s, (T)(a[i] + s), "a+s"); EACH(s + a, (T)(s + a[i]), "s+a");
  EACH(a - s, (T)(a[i] - s), "a-s"); EACH(s - a, (T)(s - a[i]), "s-a");
  EACH(a * s, (T)(a[i] * s), "a*s"); EACH(s * a, (T)(s * a[i]), "s*a"); EACH(-a, (T)(-a[i]), "-a");
  UPD(r_ += b, (T)(a[i] + b[i]), "a+=b"); UPD(r_ -= b, (T)(a[i] - b[i]), "a-=b"); UPD(r_ *= b, (T)(a[i] * b[i]), "a*=b");
  UPD(r_ += s, (T)(a[i] + s), "a+=s"); UPD(r_ -= s, (T)(a[i] - s), "a-=s"); UPD(r_ *= s, (T)(a[i] * s), "a*=s");
  UPD(r_ += r_, (T)(a[i] + a[i]), "a+=a"); UPD(r_ -= r_, (T)0, "a-=a"); UPD(r_ *= r_, (T)(a[i] * a[i]), "a*=a");
  for (std::size_t k : {(std::size_t)0, A::size() / 2, A::size() - 1}) { UPD(r_ += r_[k], (T)(a[i] + a[k]), "a+=a[k]"); UPD(r_ -= r_[k], (T)(a[i] - a[k]), "a-=a[k]"); UPD(r_ *= r_[k], (T)(a[i] * a[k]), "a*=a[k]"); UPD(r_ = r_[k], a[k], "a=a[k]"); UPD(r_.fill(r_[k]), a[k], "fill-own"); }
  UPD(r_ = b, b[i], "a=b"); UPD(r_ = r_, a[i], "a=a"); UPD(r_ = s, s, "a=s"); UPD(r_.fill(s), s, "fill"); UPD(r_.assign(b.begin(), b.end()), b[i], "assign");
  { A x = a, y = b; swap(x, y); for (std::size_t i = 0; i < A::size(); i++) { val<T>::eq(x[i], b[i], "swap"); val<T>::eq(y[i], a[i], "swap"); } }
  { A x(s); for (std::size_t i = 0; i < A::size(); i++) val<T>::eq(x[i], s, "fill-construct"); }
  // reductions over the storage order: iterators, reverse iterators, front, back, data
  { std::size_t k = 0; for (auto &e : a) { val<T>::eq(e, a[k], "iterate"); k++; } sym_assert(k == A::size(), "iterate-count"); }
  { std::size_t k = A::size(); for (auto it = a.rbegin(); it != a.rend(); ++it) { k--; val<T>::eq(*it, a[k], "reverse"); } sym_assert(k == 0, "reverse-count"); }
  { A x = a; std::size_t k = A::size(); for (auto it = x.rbegin(); it != x.rend(); ++it) { k--; sym_assert(&*it == &x[k], "reverse-mutable"); } sym_assert(k == 0, "reverse-mutable-count"); k = A::size(); for (auto it = a.crbegin(); it != a.crend(); ++it) { k--; sym_assert(&*it == &a[k], "reverse-const"); } sym_assert(k == 0, "reverse-const-count");
    k = 0; for (auto it = a.cbegin(); it != a.cend(); ++it) { sym_assert(&*it == &a[k], "iterate-const"); k++; } sym_assert(k == A::size(), "iterate-const-count"); k = 0; for (auto it = x.begin(); it != x.end(); ++it) { sym_assert(&*it == &x[k], "iterate-mutable"); k++; } sym_assert(k == A::size(), "iterate-mutable-count"); sym_assert(&x.front() == &x[0] && &x.back() == &x[A::size() - 1] && x.data() == &x[0], "front-back-mutable"); }
  val<T>::eq(a.front(), a[0], "front"); val<T>::eq(a.back(), a[A::size() - 1], "back"); sym_assert(a.data() == &a[0], "data");
}
template<class A> void divide() {
  using T = typename A::value_type;
  const A a = make<A>("a"), b = make<A>("b", true); const T s = val<T>::nz("s");
  EACH(a / b, (T)(a[i] / b[i]), "a/b"); EACH(s / b, (T)(s / b[i]), "s/b"); EACH(a / s, (T)(a[i] / s), "a/s");
  UPD(r_ /= b, (T)(a[i] / b[i]), "a/=b"); UPD(r_ /= s, (T)(a[i] / s), "a/=s");
  { A x = a; sym_assume(a[0] != 0); sym_assume(a[0] != -1); x /= x[0]; for (std::size_t i = 0; i < A::size(); i++) val<T>::eq(x[i], (T)(a[i] / a[0]), "a/=a[0]"); }
  { A x = b; x /= x; for (std::size_t i = 0; i < A::size(); i++) val<T>::eq(x[i], (T)1, "a/=a"); }
}
template<class A> void order() {
  const A a = make<A>("a"), b = make<A>("b");
  bool eq = true, lt = false, dec = false;
  for (std::size_t i = 0; i < A::size(); i++) {
    bool l = a[i] < b[i], g = b[i] < a[i];
    if (l | g) { eq = false; if (!dec) { lt = l; dec = true; } }
  }
  sym_assert((a == b) == eq, "=="); sym_assert((a != b) == !eq, "!="); sym_assert((a < b) == lt, "<");
  sym_assert((a > b) == (!eq && !lt), ">"); sym_assert((a <= b) == (eq || lt), "<="); sym_assert((a >= b) == !lt, ">=");
  auto s = val<typename A::value_type>::any("s"); bool all = true;
  for (std::size_t i = 0; i < A::size(); i++) all = all & !(a[i] < s) & !(s < a[i]);
  sym_assert((a == s) == all, "==scalar");
}
using d1 = array<double, 1>; using d2 = array<double, 2>; using d3 = array<double, 3>; using d5 = array<double, 5>; using d9 = array<double, 9>;
using i2 = array<int, 2>; using i3 = array<int, 3>; using i4 = array<int, 4>; using f3 = array<float, 3>; using l3 = array<long, 3>;
using m3 = multi_array<double, 3>; using m23 = multi_array<double, 2, 3>; using m234 = multi_array<double, 2, 3, 4>; using m33 = multi_array<double, 3, 3>; using n23 = multi_array<int, 2, 3>; using n22 = multi_array<int, 2, 2>;
HARNESS(arith_d1) { arith<d1>(); } HARNESS(arith_d2) { arith<d2>(); } HARNESS(arith_d3) { arith<d3>(); } HARNESS(arith_d5) { arith<d5>(); } THOROUGH_HARNESS(arith_d9) { arith<d9>(); }
HARNESS(arith_i3) { arith<i3>(); } HARNESS(arith_f3) { arith<f3>(); } HARNESS(arith_l3) { arith<l3>(); }
HARNESS(arith_m3) { arith<m3>(); } HARNESS(arith_m23) { arith<m23>(); } HARNESS(arith_m234) { arith<m234>(); } HARNESS(arith_m33) { arith<m33>(); } HARNESS(arith_n23) { arith<n23>(); }
HARNESS(divide_d3) { divide<d3>(); } HARNESS(divide_d2) { divide<d2>(); } HARNESS(divide_m23) { divide<m23>(); } HARNESS(divide_i2) { divide<i2>(); } HARNESS(divide_i3) { divide<i3>(); } HARNESS(divide_n22) { divide<n22>(); } HARNESS(divide_f3) { divide<f3>(); }
HARNESS(order_i2) { order<i2>(); } HARNESS(order_i3) { order<i3>(); } HARNESS(order_n22) { order<n22>(); } THOROUGH_HARNESS(order_i4) { order<i4>(); } HARNESS(order_d2) { order<d2>(); }
// mixed element types, conversions, explicit element lists
HARNESS(mixed) {
  array<int, 3> a = make<i3>("a"); d3 b = make<d3>("b"), r = b;
  array<double, 3> l(sym_real("x"), 2, 3.5); sym_eq(l[1], 2, "list"); sym_eq(l[2], 3.5, "list");
  multi_array<double, 2, 2> m{1., 2., 3., 4.}; for (int i = 0; i < 4; i++) sym_eq(m[i], i + 1, "list-multi");
  multi_array<double, 2, 2> f{7.}; for (int i = 0; i < 4; i++) sym_eq(f[i], 7, "list-fill");
  array<double, 3> c1(a), c2; c2 = a; multi_array<int, 2, 3> ma = make<n23>("m"); multi_array<double, 2, 3> m1(ma), m2; m2 = ma; multi_array<double, 2, 2> ml; ml.assign({1., 2., 3., 4.});
  for (int i = 0; i < 3; i++) { sym_eq(c1[i], (double)a[i], "convert-construct"); sym_eq(c2[i], (double)a[i], "convert-assign"); } for (int i = 0; i < 6; i++) { sym_eq(m1[i], (double)ma[i], "convert-construct-multi"); sym_eq(m2[i], (double)ma[i], "convert-assign-multi"); } for (int i = 0; i < 4; i++) sym_eq(ml[i], i + 1, "assign-list-multi");
  d3 q; q.assign({1., 2., 3.}); for (int i = 0; i < 3; i++) sym_eq(q[i], i + 1, "assign-list");
}
template<class D, class I> void compound() {
  const D b = make<D>("b"); const I a = make<I>("a", true); const int k = sym_int_in("k", 1, 1000);
#define MIX(op, label) { D r = b; r op a; for (std::size_t i = 0; i < D::size(); i++) { double e = b[i]; e op a[i]; sym_eq(r[i], e, label); } D q = b; q op k; for (std::size_t i = 0; i < D::size(); i++) { double e = b[i]; e op k; sym_eq(q[i], e, label "-int"); } }
  MIX(+=, "mixed+="); MIX(-=, "mixed-="); MIX(*=, "mixed*="); MIX(/=, "mixed/=");
}
HARNESS(mixed_array) { compound<d3, i3>(); } HARNESS(mixed_multi) { compound<multi_array<double, 2, 2>, n22>(); }
// sizes around the limits of narrow counters
template<class A> void large() { A a; int v = sym_int("v"), w = sym_int("w"); a.fill(v); constexpr std::size_t n = A::size(); bool ok = true; for (std::size_t i = 0; i < n; i++) ok = ok & (a[i] == v); sym_assert(ok, "large-fill"); a[n - 1] = w; a[n / 2] = w; A b(w), c = a + b; a += b; ok = true; for (std::size_t i = 0; i < n; i++) { unsigned e = (unsigned)(i == n - 1 || i == n / 2 ? w : v) + (unsigned)w; ok = ok & ((unsigned)a[i] == e) & ((unsigned)c[i] == e); } sym_assert(ok, "large-sum"); sym_assert((a == c) && !(a != c), "large-equal"); std::size_t k = 0; for (auto &x : a) { (void)x; k++; } sym_assert(k == n, "large-iterate"); }
HARNESS(large_127) { large<array<int, 127>>(); } HARNESS(large_128) { large<array<int, 128>>(); } HARNESS(large_256) { large<array<int, 256>>(); } HARNESS(large_multi) { large<multi_array<int, 16, 16>>(); } HARNESS(large_300) { large<multi_array<int, 3, 10, 10>>(); }
template<class A> void large_ops() {
  constexpr std::size_t n = A::size(); int v = sym_int("v"), w = sym_int("w"), s = sym_int_in("s", 1, 1000); A a(v), b(w); a[n - 1] = w; b[n - 1] = v; b[n / 2] = v;
#define BIG(expr, want, label) { auto r_ = (expr); bool ok_ = true; for (std::size_t i = 0; i < n; i++) ok_ = ok_ & (r_[i] == (int)(want)); sym_assert(ok_, label); }
#define BIGU(stmt, want, label) { A r_ = a; stmt; bool ok_ = true; for (std::size_t i = 0; i < n; i++) ok_ = ok_ & (r_[i] == (int)(want)); sym_assert(ok_, label); }
  BIG(a - b, (unsigned)a[i] - (unsigned)b[i], "large-difference"); BIG(-a, 0u - (unsigned)a[i], "large-negation"); BIG(a + s, (unsigned)a[i] + (unsigned)s, "large-a+s"); BIG(s - a, (unsigned)s - (unsigned)a[i], "large-s-a"); BIG(a - s, (unsigned)a[i] - (unsigned)s, "large-a-s"); BIG(s + a, (unsigned)a[i] + (unsigned)s, "large-s+a"); BIG(a * 3, (unsigned)a[i] * 3u, "large-a*s"); BIG(3 * a, (unsigned)a[i] * 3u, "large-s*a"); BIG(a / 4, a[i] / 4, "large-a/s");
  BIGU(r_ -= b, (unsigned)a[i] - (unsigned)b[i], "large-a-=b"); BIGU(r_ += s, (unsigned)a[i] + (unsigned)s, "large-a+=s"); BIGU(r_ -= s, (unsigned)a[i] - (unsigned)s, "large-a-=s"); BIGU(r_ *= 3, (unsigned)a[i] * 3u, "large-a*=s"); BIGU(r_ /= 4, a[i] / 4, "large-a/=s"); BIGU(r_ = s, s, "large-a=s"); BIGU(r_ = b, b[i], "large-a=b"); BIGU(r_.assign(b.begin(), b.end()), b[i], "large-assign");
  { A x = a, y = b; swap(x, y); bool ok = true; for (std::size_t i = 0; i < n; i++) ok = ok & (x[i] == b[i]) & (y[i] == a[i]); sym_assert(ok, "large-swap"); A z(x); ok = true; for (std::size_t i = 0; i < n; i++) ok = ok & (z[i] == x[i]); sym_assert(ok, "large-copy"); }
  { A one(1), x(2), y(3); x[n - 1] = v; y[n - 1] = w; BIG(x * y, i == n - 1 ? (unsigned)v * (unsigned)w : 6u, "large-product"); BIG(x / one, x[i], "large-quotient"); A p = x; p *= y; BIG(p, i == n - 1 ? (unsigned)v * (unsigned)w : 6u, "large-a*=b"); p = x; p /= one; BIG(p, x[i], "large-a/=b"); }
  { A x(7), y(7); x[n - 1] = v; y[n - 1] = w; sym_assert((x < y) == (v < w), "large-less"); sym_assert((x == y) == (v == w), "large-equal-last"); sym_assert((x == 7) == (v == 7), "large-equal-scalar"); }
}
HARNESS(large_ops_256) { large_ops<array<int, 256>>(); } HARNESS(large_ops_128) { large_ops<array<int, 128>>(); } HARNESS(large_ops_multi) { large_ops<multi_array<int, 16, 16>>(); } HARNESS(large_ops_300) { large_ops<multi_array<int, 3, 10, 10>>(); } HARNESS(large_ops_1d) { large_ops<multi_array<int, 130>>(); }
// scalars of another arithmetic type: the usual conversions of the element expression apply
template<class I, class D> void scalars() {
  const D b = make<D>("b", true); const int k = sym_int_in("k", 1, 1000); constexpr std::size_t n = D::size();
#define SC(expr, want, label) { auto r_ = (expr); for (std::size_t i = 0; i < n; i++) sym_eq(r_[i], (want), label); }
  SC(b + k, b[i] + k, "real+int"); SC(k + b, k + b[i], "int+real"); SC(b - k, b[i] - k, "real-int"); SC(k - b, k - b[i], "int-real"); SC(b * k, b[i] * k, "real*int"); SC(k * b, k * b[i], "int*real"); SC(b / k, b[i] / k, "real/int"); SC(k / b, k / b[i], "int/real");
  D c(k); sym_assert(c == k, "real==int"); c[n - 1] = c[n - 1] + 0.5; sym_assert(!(c == k), "real!=int");
  I a(k); for (double q : {0.5, -0.25, 1000.5}) { sym_assert(!(a == (k + q)), "int!=fraction"); } sym_assert(a == (long)k, "int==long"); sym_assert(!(a == ((long)k + (1L << 32))), "int!=long"); sym_assert(a == (double)k, "int==real"); sym_assert(a == (float)k, "int==float");
  I e; for (std::size_t i = 0; i < n; i++) e[i] = (int)i * 2 - 3; for (double q : {2.5, -1.5, 0.75}) {
#define SI(expr, want, label) { auto r_ = (expr); bool ok_ = true; for (std::size_t i = 0; i < n; i++) ok_ = ok_ & (r_[i] == (int)(want)); sym_assert(ok_, label); }
    SI(e + q, e[i] + q, "int+fraction"); SI(q + e, q + e[i], "fraction+int"); SI(e - q, e[i] - q, "int-fraction"); SI(q - e, q - e[i], "fraction-int"); SI(e * q, e[i] * q, "int*fraction"); SI(q * e, q * e[i], "fraction*int"); SI(e / q, e[i] / q, "int/fraction"); SI(q / e, q / e[i], "fraction/int"); }
}
HARNESS(scalars_array) { scalars<i4, array<double, 4>>(); } HARNESS(scalars_multi) { scalars<n22, multi_array<double, 2, 2>>(); }
// scalars on either side of larger multi-dimensional arrays: one arbitrary element at a picked place
template<class A> void multi_scalar() { const int n = A::elements; int k = sym_pick("k", 0, n - 1); double s = sym_real("s"), x = sym_real("x"); sym_assume(s != 0); sym_assume(x != 0); A a; for (int i = 0; i < n; i++) a[i] = i + 1.5; a[k] = x; const A a0 = a; A r[9] = {s + a, s - a, s * a, s / a, a + s, a - s, a * s, a / s, -a};
  for (int i = 0; i < n; i++) { double e = a0[i], w[9] = {s + e, s - e, s * e, s / e, e + s, e - s, e * s, e / s, -e}; for (int j = 0; j < 9; j++) sym_eq(r[j][i], w[j], "multi-scalar"); sym_eq(a[i], e, "multi-scalar-kept"); } }
HARNESS(multi_scalar_m234) { multi_scalar<m234>(); } HARNESS(multi_scalar_m57) { multi_scalar<multi_array<double, 5, 7>>(); }
