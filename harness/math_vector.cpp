// Vector algebra over every value of the components.
#include "sym.h"
#include <ristra/math/general.h>
#include <ristra/math/vector.h>
#include <ristra/math/matrix.h>
#include <vector>
#include <cmath>
using namespace ristra::math; using std::size_t;
template<size_t N> array<double, N> vec(const char *n) { array<double, N> a; for (size_t i = 0; i < N; i++) a[i] = sym_real(n); return a; }
template<size_t N> void dots() {
  auto a = vec<N>("a"), b = vec<N>("b"); double d = 0, aa = 0, dd = 0;
  for (size_t i = 0; i < N; i++) { d += a[i] * b[i]; aa += a[i] * a[i]; dd += (a[i] - b[i]) * (a[i] - b[i]); }
  sym_eq(dot_product(a, b), d, "dot"); sym_eq(dot_product(a.begin(), a.end(), b.begin()), d, "dot-iter");
  double m = magnitude(a); sym_le(0, m, "norm>=0"); sym_eq(m * m, aa, "norm^2"); sym_eq(abs(a), m, "abs=norm");
  double e = delta_magnitude(a, b); sym_le(0, e, "dist>=0"); sym_eq(e * e, dd, "dist^2");
}
template<size_t N> void units() {
  auto a = vec<N>("a"); double aa = 0; for (size_t i = 0; i < N; i++) aa += a[i] * a[i]; sym_assume(aa > 0);
  auto u = unit(a); double uu = 0, l = std::sqrt(aa); for (size_t i = 0; i < N; i++) { uu += u[i] * u[i]; sym_eq(u[i] * l, a[i], "unit-dir"); } sym_eq(uu, 1, "unit-length");
}
HARNESS(dot1) { dots<1>(); } HARNESS(dot2) { dots<2>(); } HARNESS(dot3) { dots<3>(); } HARNESS(dot4) { dots<4>(); }
HARNESS(unit2) { units<2>(); } HARNESS(unit3) { units<3>(); }
HARNESS(dot_multi) { matrix<double, 2, 3> a, b; double d = 0, aa = 0; for (int i = 0; i < 6; i++) { a[i] = sym_real("a"); b[i] = sym_real("b"); d += a[i] * b[i]; aa += a[i] * a[i]; }
  sym_eq(dot_product(a, b), d, "dot-matrix"); sym_eq(doubledot_product(a, b), d, "doubledot"); double m = magnitude(a); sym_le(0, m, "norm-matrix>=0"); sym_eq(m * m, aa, "norm-matrix"); }
HARNESS(dot_vector) { int n = sym_pick("n", 0, 4); std::vector<double> a, b; double d = 0, aa = 0; for (int i = 0; i < n; i++) { a.push_back(sym_real("a")); b.push_back(sym_real("b")); d += a[i] * b[i]; aa += a[i] * a[i]; }
  sym_eq(dot_product(a, b), d, "dot-vector"); double m = magnitude(a); sym_le(0, m, "norm-vector>=0"); sym_eq(m * m, aa, "norm-vector"); }
HARNESS(cross3) {
  auto a = vec<3>("a"), b = vec<3>("b"), c = vec<3>("c"); auto x = cross_product(a, b), y = cross_product(b, a);
  // the unique vector with x.c = det[a,b,c] for all c, right-handed
  double det = a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
  sym_eq(x[0] * c[0] + x[1] * c[1] + x[2] * c[2], det, "cross.c=det"); sym_eq(triple_product(a, b, c), det, "triple");
  for (int i = 0; i < 3; i++) sym_eq(x[i], -y[i], "antisymmetric");
  sym_eq(x[0], a[1] * b[2] - a[2] * b[1], "cross-x"); sym_eq(x[1], a[2] * b[0] - a[0] * b[2], "cross-y"); sym_eq(x[2], a[0] * b[1] - a[1] * b[0], "cross-z");
}
HARNESS(cross2) {
  auto a = vec<2>("a"), b = vec<2>("b"); sym_eq(cross_product(a, b), a[0] * b[1] - a[1] * b[0], "cross2d");
  auto n = normal(a, b); double tx = b[0] - a[0], ty = b[1] - a[1];
  sym_eq(n[0] * tx + n[1] * ty, 0, "normal-perpendicular"); sym_eq(n[0] * n[0] + n[1] * n[1], tx * tx + ty * ty, "normal-length"); sym_eq(tx * n[1] - ty * n[0], tx * tx + ty * ty, "normal-side");
}
template<size_t N> void refl() {
  auto v = vec<N>("v"), n = vec<N>("n"); double nn = 0, vn = 0; for (size_t i = 0; i < N; i++) { nn += n[i] * n[i]; vn += n[i] * v[i]; }
  auto r = reflect(v, n); auto R = reflection_matrix(n); auto P = projection_matrix(n);
  for (size_t i = 0; i < N; i++) { double rv = 0, pv = 0; for (size_t j = 0; j < N; j++) { rv += R(i, j) * v[j]; pv += P(i, j) * v[j]; sym_eq(R(i, j), (i == j) - 2 * n[i] * n[j], "reflection-matrix"); sym_eq(P(i, j), (i == j) - n[i] * n[j], "projection-matrix"); }
    sym_eq(r[i], v[i] - 2 * vn * n[i], "reflect"); sym_eq(rv, r[i], "reflection-matrix-applies"); sym_eq(pv, v[i] - vn * n[i], "projection-applies"); }
  sym_assume(nn == 1); double rr = 0, vv = 0, rn = 0; for (size_t i = 0; i < N; i++) { rr += r[i] * r[i]; vv += v[i] * v[i]; rn += r[i] * n[i]; }
  sym_eq(rn, -vn, "reflect-flips-normal"); sym_eq(rr, vv, "reflect-isometry");
}
HARNESS(reflect2) { refl<2>(); } HARNESS(reflect3) { refl<3>(); }
HARNESS(rotate) {
  double t = sym_real("t"); auto R = rotation_matrix<double, 2>(t); double c = std::cos(t), s = std::sin(t);
  sym_eq(R(0, 0), c, "rot"); sym_eq(R(1, 0), s, "rot"); sym_eq(R(0, 1), -s, "rot"); sym_eq(R(1, 1), c, "rot");
  sym_eq(R(0, 0) * R(1, 1) - R(0, 1) * R(1, 0), 1, "rot-det"); array<double, 2> v = vec<2>("v"); auto w = R * v; sym_eq(w[0] * w[0] + w[1] * w[1], v[0] * v[0] + v[1] * v[1], "rot-isometry");
}
HARNESS(outer) { auto a = vec<3>("a"), b = vec<3>("b"); auto o = outer_product(a, b); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(o(i, j), a[i] * b[j], "outer");
  matrix<double, 3, 3> c, c0; double f = sym_real("f"); for (int i = 0; i < 9; i++) c0[i] = c[i] = sym_real("c"); outer_product(a, b, c, f); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(c(i, j), c0(i, j) + f * a[i] * b[j], "outer-accumulate"); }
HARNESS(outer2) { auto a = vec<2>("a"), b = vec<2>("b"); auto o = outer_product(a, b); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_eq(o(i, j), a[i] * b[j], "outer");
  matrix<double, 2, 2> c, c0; double f = sym_real("f"); for (int i = 0; i < 4; i++) c0[i] = c[i] = sym_real("c"); outer_product(a, b, c, f); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_eq(c(i, j), c0(i, j) + f * a[i] * b[j], "outer-accumulate"); }
template<class A> void both(const A &a, const A &b) {
  auto lo = ristra::math::min(a, b), hi = ristra::math::max(a, b); sym_assert(lo.size() == a.size() && hi.size() == a.size(), "minmax-size");
  for (size_t i = 0; i < a.size(); i++) { sym_assert(lo[i] == (b[i] < a[i] ? b[i] : a[i]), "min"); sym_assert(hi[i] == (a[i] < b[i] ? b[i] : a[i]), "max"); }
}
HARNESS(minmax_array) { array<int, 3> a, b; for (int i = 0; i < 3; i++) { a[i] = sym_int("a"); b[i] = sym_int("b"); } both(a, b); }
HARNESS(minmax_real) { auto a = vec<2>("a"), b = vec<2>("b"); auto lo = ristra::math::min(a, b), hi = ristra::math::max(a, b); for (int i = 0; i < 2; i++) { sym_le(lo[i], a[i], "min<=a"); sym_le(lo[i], b[i], "min<=b"); sym_le(a[i], hi[i], "a<=max"); sym_le(b[i], hi[i], "b<=max"); sym_eq(lo[i] + hi[i], a[i] + b[i], "min+max"); } }
HARNESS(minmax_multi) { multi_array<int, 2, 2> a, b; for (int i = 0; i < 4; i++) { a[i] = sym_int("a"); b[i] = sym_int("b"); } both(a, b); }
HARNESS(minmax_vector) { int n = sym_pick("n", 0, 3); std::vector<int> a, b; for (int i = 0; i < n; i++) { a.push_back(sym_int("a")); b.push_back(sym_int("b")); } both(a, b); }
HARNESS(extrema) { array<int, 4> a; for (int i = 0; i < 4; i++) a[i] = sym_int("a"); auto lo = ristra::math::min_element(a), hi = ristra::math::max_element(a); bool il = false, ih = false;
  for (int i = 0; i < 4; i++) { sym_assert(*lo <= a[i], "min_element"); sym_assert(*hi >= a[i], "max_element"); il |= *lo == a[i]; ih |= *hi == a[i]; } sym_assert(il & ih, "extrema-member"); sym_assert(lo >= a.begin() && lo < a.end() && hi >= a.begin() && hi < a.end(), "extrema-inside");
  int n = sym_pick("n", 1, 3); std::vector<int> v; for (int i = 0; i < n; i++) v.push_back(sym_int("v")); auto vl = ristra::math::min_element(v), vh = ristra::math::max_element(v); for (int i = 0; i < n; i++) { sym_assert(*vl <= v[i], "min_element-vector"); sym_assert(*vh >= v[i], "max_element-vector"); } }
HARNESS(scalars) { double x = sym_real("x"); sym_eq(sqr(x), x * x, "sqr"); sym_eq(cube(x), x * x * x, "cube"); sym_assert(sgn(x) == (x > 0 ? 1 : x < 0 ? -1 : 0), "sgn"); int k = sym_int("k"); sym_assert(sgn(k) == (k > 0 ? 1 : k < 0 ? -1 : 0), "sgn-int"); }
HARNESS(average) {
  double a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"); sym_eq(average(a, b) * 2, a + b, "average2"); sym_eq(average(a, b, c) * 3, a + b + c, "average3"); sym_eq(average(a, b, c, d) * 4, a + b + c + d, "average4");
  auto u = vec<3>("u"), v = vec<3>("v"), w = vec<3>("w"); auto m2 = average(u, v); auto m3 = average(u, v, w); for (int i = 0; i < 3; i++) { sym_eq(m2[i] * 2, u[i] + v[i], "average-vec2"); sym_eq(m3[i] * 3, u[i] + v[i] + w[i], "average-vec3"); }
  int n = sym_pick("n", 1, 4); std::vector<double> q; double s = 0; for (int i = 0; i < n; i++) { q.push_back(sym_real("q")); s += q[i]; } sym_eq(average(q) * n, s, "average-container"); sym_eq(average(q.begin(), q.end()) * n, s, "average-range");
}
HARNESS(unit1) { units<1>(); } HARNESS(unit4) { units<4>(); } HARNESS(reflect4) { refl<4>(); }
// integer and single-precision elements, other containers
template<class A> void ints(int B) {
  A a, b; constexpr size_t n = A::size(); int d = 0; for (size_t i = 0; i < n; i++) { a[i] = sym_int_in("a", -B, B); b[i] = sym_int_in("b", -B, B); d += a[i] * b[i]; } sym_assert(dot_product(a, b) == d, "dot-int"); sym_assert(dot_product(a.begin(), a.end(), b.begin()) == d, "dot-int-range");
}
HARNESS(dot_int) { ints<array<int, 3>>(100); ints<multi_array<int, 2, 2>>(100); array<long, 2> a, b; a[0] = sym_int("a"); a[1] = 3; b[0] = sym_int("b"); b[1] = 1L << 40; sym_assert(dot_product(a, b) == a[0] * b[0] + 3 * (1L << 40), "dot-long"); }
HARNESS(cross_int) { array<int, 3> a, b, c; for (int i = 0; i < 3; i++) { a[i] = sym_int_in("a", -100, 100); b[i] = sym_int_in("b", -100, 100); c[i] = i * i - 1; } auto x = cross_product(a, b); sym_assert(x[0] == a[1] * b[2] - a[2] * b[1] && x[1] == a[2] * b[0] - a[0] * b[2] && x[2] == a[0] * b[1] - a[1] * b[0], "cross-int"); sym_assert(triple_product(a, b, c) == x[0] * c[0] + x[1] * c[1] + x[2] * c[2], "triple-int"); array<int, 2> u(a[0], a[1]), v(b[0], b[1]); sym_assert(cross_product(u, v) == a[0] * b[1] - a[1] * b[0], "cross2d-int"); }
HARNESS(single) { array<float, 3> a, b; double d = 0, aa = 0, dd = 0; for (int i = 0; i < 3; i++) { a[i] = (float)sym_real_in("a", -100, 100); b[i] = (float)sym_real_in("b", -100, 100); d += a[i] * b[i]; aa += a[i] * a[i]; dd += (a[i] - b[i]) * (a[i] - b[i]); } double t = sym_native() ? 1 : 0; sym_near(dot_product(a, b), d, t, "dot-float"); double m = magnitude(a), e = delta_magnitude(a, b); sym_near(m * m, aa, t, "norm-float"); sym_near(e * e, dd, t, "dist-float"); auto x = cross_product(a, b); sym_near(x[0], a[1] * b[2] - a[2] * b[1], t, "cross-float"); }
HARNESS(distance_mixed) { array<int, 2> a; array<double, 2> b; double dd = 0; for (int i = 0; i < 2; i++) { a[i] = sym_int_in("a", -1000, 1000); b[i] = sym_real("b"); dd += (a[i] - b[i]) * (a[i] - b[i]); } double e = delta_magnitude(a, b), f = delta_magnitude(b, a); sym_le(0, e, "dist-mixed>=0"); sym_eq(e * e, dd, "dist-mixed"); sym_eq(f * f, dd, "dist-mixed-other"); }
HARNESS(average_int) { int a = sym_int_in("a", -1000, 1000), b = sym_int_in("b", -1000, 1000), c = sym_int_in("c", -1000, 1000); int s = a + b + c; sym_assert(average(a, b) == (a + b) / 2, "average-int2"); sym_assert(average(a, b, c) == s / 3, "average-int3"); std::vector<int> v{a, b, c}; sym_assert(average(v) == s / 3 && average(v.begin(), v.end()) == s / 3, "average-int-container"); array<int, 2> p(a, b), q(b, c), r(c, a); auto m = average(p, q, r); sym_assert(m[0] == s / 3 && m[1] == s / 3, "average-int-array"); std::vector<array<int, 2>> w{p, q, r}; auto k = average(w), l = average(w.begin(), w.end()); sym_assert(k[0] == s / 3 && k[1] == s / 3 && l[0] == s / 3 && l[1] == s / 3, "average-int-arrays"); sym_assert(v[0] == a && v[1] == b && v[2] == c && p[0] == a && q[1] == c, "average-keeps-arguments"); short x = a, y = b, z = c; sym_assert(average(x, y, z) == s / 3, "average-short"); std::vector<long> u{a, b, c, 0, 0}; sym_assert(average(u) == s / 5, "average-long"); unsigned char h = sym_int_in("h", 0, 255); std::vector<unsigned> e{h, 1, 5}; sym_assert(average(e) == (h + 6u) / 3, "average-unsigned"); }
HARNESS(average_points) { auto u = vec<2>("u"), v = vec<2>("v"), w = vec<2>("w"); std::vector<array<double, 2>> q{u, v, w}; auto m = average(q), r = average(q.begin(), q.end()); std::array<array<double, 2>, 2> z{u, v}; auto o = average(z.begin(), z.end()); for (int i = 0; i < 2; i++) { sym_eq(m[i] * 3, u[i] + v[i] + w[i], "average-arrays"); sym_eq(r[i] * 3, u[i] + v[i] + w[i], "average-arrays-range"); sym_eq(o[i] * 2, u[i] + v[i], "average-two-range"); } }
HARNESS(extrema_real) { matrix<double, 2, 2> a; for (int i = 0; i < 4; i++) a[i] = sym_real("a"); auto lo = ristra::math::min_element(a), hi = ristra::math::max_element(a); for (int i = 0; i < 4; i++) { sym_le(*lo, a[i], "min_element-real"); sym_le(a[i], *hi, "max_element-real"); } sym_assert(lo >= a.begin() && lo < a.end() && hi >= a.begin() && hi < a.end(), "extrema-real-inside"); std::array<int, 3> s; for (int &x : s) x = sym_int("s"); auto sl = ristra::math::min_element(s), sh = ristra::math::max_element(s); for (int x : s) sym_assert(*sl <= x && *sh >= x, "extrema-std-array"); }
HARNESS(scalars_more) { int k = sym_int_in("k", -1000, 1000); sym_assert(sqr(k) == k * k && cube(k) == k * k * k, "powers-int"); unsigned char c = sym_char("c"); sym_assert(sgn(c) == (c != 0) && sqr(c) == c * c, "unsigned-char"); unsigned u = sym_int("u"); sym_assert(sgn(u) == (u != 0), "sgn-unsigned"); long l = sym_long("l"); sym_assert(sgn(l) == (l > 0) - (l < 0), "sgn-long"); signed char h = sym_char("h"); sym_assert(sgn(h) == (h > 0) - (h < 0), "sgn-char"); const int &r = k; sym_assert(sqr(r) == k * k && cube(r) == k * k * k && sqr(k + 1) == (k + 1) * (k + 1), "powers-reference"); float f = (float)sym_real("f"); sym_assert(sgn(f) == (f > 0 ? 1 : f < 0 ? -1 : 0), "sgn-float"); array<double, 2> v = vec<2>("v"); auto q = sqr(v), w = cube(v); for (int i = 0; i < 2; i++) { sym_eq(q[i], v[i] * v[i], "sqr-array"); sym_eq(w[i], v[i] * v[i] * v[i], "cube-array"); } }
// long vectors
template<class A> void longv() { A a(1), b(2); constexpr size_t n = A::size(); int x = sym_int_in("x", -1000, 1000), y = sym_int_in("y", -1000, 1000); a[n - 1] = x; b[n - 1] = y; a[n / 2] = y; b[n / 2] = x; auto lo = ristra::math::min(a, b), hi = ristra::math::max(a, b); bool ok = true; for (size_t i = 0; i < n; i++) ok = ok & (lo[i] == (a[i] < b[i] ? a[i] : b[i])) & (hi[i] == (a[i] < b[i] ? b[i] : a[i])); sym_assert(ok, "long-minmax"); A c(b); c[n / 2] = 3; c[n - 1] = 5; sym_assert(dot_product(a, c) == (int)(n - 2) * 2 + 3 * y + 5 * x, "long-dot"); auto mi = ristra::math::min_element(a), ma = ristra::math::max_element(b); sym_assert(*mi == (x < y ? x < 1 ? x : 1 : y < 1 ? y : 1), "long-min-element"); sym_assert(*ma == (x > y ? x > 2 ? x : 2 : y > 2 ? y : 2), "long-max-element"); }
HARNESS(long_array) { longv<array<int, 300>>(); } HARNESS(long_multi) { longv<multi_array<int, 20, 20>>(); } HARNESS(long_128) { longv<array<int, 130>>(); }
HARNESS(long_vector) { int x = sym_int_in("x", -1000, 1000), y = sym_int_in("y", -1000, 1000); std::vector<int> a(300, 1), b(300, 2); a[299] = x; b[299] = y; auto lo = ristra::math::min(a, b), hi = ristra::math::max(a, b); bool ok = lo.size() == 300 && hi.size() == 300; for (int i = 0; i < 300; i++) ok = ok & (lo[i] == (a[i] < b[i] ? a[i] : b[i])) & (hi[i] == (a[i] < b[i] ? b[i] : a[i])); sym_assert(ok, "long-vector-minmax"); sym_assert(dot_product(a, b) == 598 + x * y, "long-vector-dot"); sym_assert(average(a) == (299 + x) / 300 && average(a.begin(), a.end()) == (299 + x) / 300, "long-vector-average"); array<double, 300> u(1.), v(2.); double p = sym_real("p"); u[299] = p; double m = magnitude(u), d = delta_magnitude(u, v); sym_eq(m * m, 299 + p * p, "long-magnitude"); sym_eq(d * d, 299 + (p - 2) * (p - 2), "long-distance"); }
