// Matrix algebra over every value of the entries.
#include "sym.h"
#include <ristra/math/matrix.h>
#include <cmath>
using namespace ristra::math; using std::size_t;
template<size_t A, size_t B> matrix<double, A, B> mat(const char *n) { matrix<double, A, B> m; for (size_t i = 0; i < A * B; i++) m[i] = sym_real(n); return m; }
template<size_t N> array<double, N> vec(const char *n) { array<double, N> a; for (size_t i = 0; i < N; i++) a[i] = sym_real(n); return a; }
// Leibniz formula
template<size_t N> double leibniz(const matrix<double, N, N> &m) {
  int p[N]; for (size_t i = 0; i < N; i++) p[i] = i; double r = 0;
  while (true) { int inv = 0; for (size_t i = 0; i < N; i++) for (size_t j = i + 1; j < N; j++) inv += p[i] > p[j]; double t = inv % 2 ? -1 : 1; for (size_t i = 0; i < N; i++) t *= m(i, p[i]); r += t;
    int i = N - 2; while (i >= 0 && p[i] > p[i + 1]) i--; if (i < 0) break; int j = N - 1; while (p[j] < p[i]) j--; int t1 = p[i]; p[i] = p[j]; p[j] = t1; for (int a = i + 1, b = N - 1; a < b; a++, b--) { int t2 = p[a]; p[a] = p[b]; p[b] = t2; } }
  return r;
}
template<size_t N> void det() { auto m = mat<N, N>("m"); sym_eq(determinant(m), leibniz<N>(m), "determinant"); }
HARNESS(det1) { matrix<double, 1, 1> m; m(0, 0) = sym_real("m"); sym_eq(determinant(m), m(0, 0), "determinant"); } HARNESS(det2) { det<2>(); } HARNESS(det3) { det<3>(); } HARNESS(det4) { det<4>(); } THOROUGH_HARNESS(det5) { det<5>(); }
template<size_t N> void inv() {
  auto m = mat<N, N>("m"); if (N > 1) sym_assume(leibniz<N>(m) != 0); auto v = inverse(m);
  for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { double a = 0, b = 0; for (size_t k = 0; k < N; k++) { a += m(i, k) * v(k, j); b += v(i, k) * m(k, j); } sym_eq(a, i == j, "M.inv=I"); sym_eq(b, i == j, "inv.M=I"); }
}
HARNESS(inv1) { matrix<double, 1, 1> m; m(0, 0) = sym_real("m"); sym_assume(m(0, 0) != 0); sym_eq(inverse(m)(0, 0) * m(0, 0), 1, "M.inv=I"); } HARNESS(inv2) { inv<2>(); } HARNESS(inv3) { inv<3>(); } HARNESS(inv4) { inv<4>(); }
template<size_t N> void slv() {
  auto m = mat<N, N>("m"); auto b = vec<N>("b"); sym_assume(leibniz<N>(m) != 0); auto x = solve(m, b);
  for (size_t i = 0; i < N; i++) { double s = 0; for (size_t j = 0; j < N; j++) s += m(i, j) * x[j]; sym_eq(s, b[i], "A.x=b"); }
}
HARNESS(solve2) { slv<2>(); } HARNESS(solve3) { slv<3>(); } HARNESS(solve4) { slv<4>(); }
template<size_t A, size_t B, size_t C> void prod() {
  auto a = mat<A, B>("a"); auto b = mat<B, C>("b"); auto c = matrix_multiply(a, b); auto d = mat<A, C>("d"); auto d0 = d; matrix_multiply(a, b, d);
  for (size_t i = 0; i < A; i++) for (size_t j = 0; j < C; j++) { double s = 0; for (size_t k = 0; k < B; k++) s += a(i, k) * b(k, j); sym_eq(c(i, j), s, "product"); sym_eq(d(i, j), d0(i, j) + s, "product-accumulate"); }
  auto t = transpose(a); for (size_t i = 0; i < A; i++) for (size_t j = 0; j < B; j++) sym_eq(t(j, i), a(i, j), "transpose");
}
HARNESS(prod222) { prod<2, 2, 2>(); } HARNESS(prod333) { prod<3, 3, 3>(); } HARNESS(prod231) { prod<2, 3, 4>(); } HARNESS(prod421) { prod<4, 2, 3>(); }
template<size_t A, size_t B> void mv() {
  auto a = mat<A, B>("a"); auto x = vec<B>("x"); auto y = vec<A>("y"); double al = sym_real("alpha"), be = sym_real("beta");
  auto p = a * x; auto q = y; ax_plus_y(a, x, q); auto r = y; matrix_vector(al, a, x, be, r);
  for (size_t i = 0; i < A; i++) { double s = 0; for (size_t j = 0; j < B; j++) s += a(i, j) * x[j]; sym_eq(p[i], s, "A*x"); sym_eq(q[i], s + y[i], "Ax+y"); sym_eq(r[i], al * s + be * y[i], "alpha.A.x+beta.y"); }
}
HARNESS(mv22) { mv<2, 2>(); } HARNESS(mv33) { mv<3, 3>(); } HARNESS(mv23) { mv<2, 3>(); } HARNESS(mv31) { mv<4, 2>(); }
template<size_t N> void norms() {
  auto m = mat<N, N>("m"); double in = infinity_norm(m), on = one_norm(m), tn = two_norm(m), f = 0, tr = 0; bool ia = false, oa = false;
  for (size_t i = 0; i < N; i++) { double r = 0, c = 0; for (size_t j = 0; j < N; j++) { r += std::fabs(m(i, j)); c += std::fabs(m(j, i)); f += m(i, j) * m(i, j); } tr += m(i, i); sym_le(r, in, "inf-norm>=row"); sym_le(c, on, "one-norm>=col"); ia = ia || r == in; oa = oa || c == on; }
  sym_assert(ia, "inf-norm-attained"); sym_assert(oa, "one-norm-attained"); sym_le(0, tn, "two-norm>=0"); sym_eq(tn * tn, f, "two-norm^2"); sym_eq(trace_matrix(m), tr, "trace");
}
HARNESS(norms2) { norms<2>(); }
HARNESS(norms3) { auto m = mat<3, 3>("m"); for (int i = 0; i < 9; i++) sym_assume(m[i] >= 0); double in = infinity_norm(m), on = one_norm(m); bool ia = false, oa = false; for (int i = 0; i < 3; i++) { double r = m(i, 0) + m(i, 1) + m(i, 2), c = m(0, i) + m(1, i) + m(2, i); sym_le(r, in, "inf-norm>=row"); sym_le(c, on, "one-norm>=col"); ia = ia || r == in; oa = oa || c == on; } sym_assert(ia, "inf-norm-attained"); sym_assert(oa, "one-norm-attained"); sym_eq(trace_matrix(m), m(0, 0) + m(1, 1) + m(2, 2), "trace"); }
HARNESS(identity) { auto a = identity_matrix<double, 2>(); auto b = identity_matrix<double, 4>(); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_eq(a(i, j), i == j, "identity"); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) sym_eq(b(i, j), i == j, "identity"); }
HARNESS(doubledot) { auto a = mat<2, 3>("a"), b = mat<2, 3>("b"); double s = 0; for (int i = 0; i < 6; i++) s += a[i] * b[i]; sym_eq(doubledot_product(a, b), s, "doubledot"); auto c = mat<3, 3>("c"), d = mat<3, 3>("d"); s = 0; for (int i = 0; i < 9; i++) s += c[i] * d[i]; sym_eq(doubledot_product(c, d), s, "doubledot"); }
template<size_t N> void planes() { auto n = vec<N>("n"); auto r = reflection_matrix(n); auto p = projection_matrix(n); auto o = outer_product(n, n); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < N; j++) { sym_eq(r(i, j), (i == j) - 2 * n[i] * n[j], "reflection"); sym_eq(p(i, j), (i == j) - n[i] * n[j], "projection"); sym_eq(o(i, j), n[i] * n[j], "outer"); } }
HARNESS(planes2) { planes<2>(); } HARNESS(planes3) { planes<3>(); }
HARNESS(rotation) { double t = sym_real("t"); auto r = rotation_matrix<double, 2>(t); double c = std::cos(t), s = std::sin(t); sym_eq(r(0, 0), c, "rotation"); sym_eq(r(1, 1), c, "rotation"); sym_eq(r(1, 0), s, "rotation"); sym_eq(r(0, 1), -s, "rotation"); sym_eq(determinant(r), 1, "rotation-determinant"); }
HARNESS(cofactors) { auto m = mat<3, 3>("m"); for (int r = 0; r < 3; r++) for (int c = 0; c < 3; c++) { auto k = cofactor(m, r, c); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_eq(k(i, j), m(i + (i >= r), j + (j >= c)), "minor"); } }
// exponential: exact on nilpotent matrices, inverse of exp(A) is exp(-A), diagonal entries within 1e-12
HARNESS(exp_nilpotent) {
  double x = sym_real_in("x", 0, 1), y = sym_real_in("y", 0, 1); int k = sym_pick("k", 0, 3); double c = k == 0 ? 0.25 : k == 1 ? 1 : k == 2 ? 3 : 10;
  matrix<double, 3, 3> m(0); m(0, 1) = c * x; m(0, 2) = c * (1 - x); m(1, 2) = c * y; auto e = exponential(m);
  double w[3][3] = {{1, c * x, c * (1 - x) + c * c * x * y / 2}, {0, 1, c * y}, {0, 0, 1}};
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) sym_eq(e(i, j), w[i][j], "exp-nilpotent");
}
HARNESS(exp_inverse) {
  double x = sym_real_in("x", 0, 1); sym_assume(x > 0); sym_assume(x < 1); matrix<double, 2, 2> m; m(0, 0) = x / 16; m(0, 1) = (1 - x) / 16; m(1, 0) = (1 - x) / 16; m(1, 1) = x / 16;
  auto e = exponential(m); auto f = exponential(-m); auto p = matrix_multiply(e, f); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_eq(p(i, j), i == j, "exp(A)exp(-A)=I");
}
HARNESS(exp_diagonal) {
  static const double v[] = {-12, -3, -1, -0.5, 0.001, 0.3, 1, 2, 5.5, 12}; int i = sym_pick("i", 0, 9), j = sym_pick("j", 0, 9);
  matrix<double, 2, 2> m(0); m(0, 0) = v[i]; m(1, 1) = v[j]; auto e = exponential(m); double a = std::exp(v[i]), b = std::exp(v[j]), t = 1e-9;
  double ra = e(0, 0) / a, rb = e(1, 1) / b; double ta = 1e-8, tb = 1e-8; (void)t; // relative
  if (v[i] > -5) sym_near(ra, 1, ta, "exp-diagonal"); if (v[j] > -5) sym_near(rb, 1, tb, "exp-diagonal"); sym_eq(e(0, 1), 0, "exp-diagonal-off"); sym_eq(e(1, 0), 0, "exp-diagonal-off");
}
HARNESS(solve1) { slv<1>(); } HARNESS(norms1) { norms<1>(); }
HARNESS(norms3_negative) { auto m = mat<3, 3>("m"); for (int i = 0; i < 9; i++) if (i % 2 == 0) sym_assume(m[i] <= 0); else sym_assume(m[i] >= 0); double in = infinity_norm(m), on = one_norm(m), tn = two_norm(m), f = 0; bool ia = false, oa = false; for (int i = 0; i < 3; i++) { double r = 0, c = 0; for (int j = 0; j < 3; j++) { r += (3 * i + j) % 2 ? m(i, j) : -m(i, j); c += (3 * j + i) % 2 ? m(j, i) : -m(j, i); f += m(i, j) * m(i, j); } sym_le(r, in, "inf-norm>=row"); sym_le(c, on, "one-norm>=col"); ia = ia || r == in; oa = oa || c == on; } sym_assert(ia, "inf-norm-attained"); sym_assert(oa, "one-norm-attained"); sym_eq(tn * tn, f, "two-norm^2"); }
template<size_t N> void minors() { auto m = mat<N, N>("m"); for (size_t r = 0; r < N; r++) for (size_t c = 0; c < N; c++) { auto k = cofactor(m, r, c); for (size_t i = 0; i + 1 < N; i++) for (size_t j = 0; j + 1 < N; j++) sym_eq(k(i, j), m(i + (i >= r), j + (j >= c)), "minor"); } }
HARNESS(minors2) { minors<2>(); } HARNESS(minors4) { minors<4>(); } HARNESS(minors5) { minors<5>(); }
// larger matrices with few entries: a scaled permutation and one more entry
template<size_t N> void sparse() {
  matrix<double, N, N> m(0); size_t p[N]; for (size_t i = 0; i < N; i++) p[i] = (i * 2 + 1) % N; if (N % 2 == 0) for (size_t i = 0; i < N; i++) p[i] = (i + 2) % N; double d = 1; int inv = 0; for (size_t i = 0; i < N; i++) { double v = sym_real("d"); sym_assume(v != 0); m(i, p[i]) = v; d *= v; for (size_t j = 0; j < i; j++) inv += p[j] > p[i]; } if (inv % 2) d = -d; double x = sym_real("x"); m(N - 1, p[0]) = x; // adds nothing to the determinant
  sym_eq(determinant(m), d, "determinant-sparse"); auto v = inverse(m); auto b = vec<N>("b"); auto s = solve(m, b);
  for (size_t i = 0; i < N; i++) { double r = 0; for (size_t j = 0; j < N; j++) { double a = 0; for (size_t k = 0; k < N; k++) a += m(i, k) * v(k, j); sym_eq(a, i == j, "inverse-sparse"); r += m(i, j) * s[j]; } sym_eq(r, b[i], "solve-sparse"); }
}
HARNESS(sparse5) { sparse<5>(); } THOROUGH_HARNESS(sparse6) { sparse<6>(); }
HARNESS(prod1) { prod<1, 3, 1>(); prod<3, 1, 3>(); prod<1, 1, 1>(); prod<1, 4, 2>(); } HARNESS(mv1) { mv<1, 3>(); mv<3, 1>(); mv<1, 1>(); }
HARNESS(integers) { matrix<int, 2, 2> m, k; matrix<int, 2, 3> a; matrix<int, 3, 2> b; array<int, 3> x; array<int, 2> y; for (int i = 0; i < 4; i++) { m[i] = sym_int_in("m", -100, 100); k[i] = i - 2; } for (int i = 0; i < 6; i++) { a[i] = sym_int_in("a", -100, 100); b[i] = i * i - 7; } for (int i = 0; i < 3; i++) x[i] = 3 - 2 * i; y[0] = sym_int_in("y", -100, 100); y[1] = 5;
  sym_assert(determinant(m) == m[0] * m[3] - m[1] * m[2], "determinant-int"); auto c = matrix_multiply(a, b); matrix<int, 2, 2> d(k); matrix_multiply(a, b, d); auto p = a * x; auto q = y; ax_plus_y(a, x, q); auto r = y; matrix_vector(2, a, x, -3, r); for (int i = 0; i < 2; i++) { int s = 0; for (int j = 0; j < 3; j++) s += a(i, j) * x[j]; sym_assert(p[i] == s && q[i] == s + y[i] && r[i] == 2 * s - 3 * y[i], "matrix-vector-int"); for (int j = 0; j < 2; j++) { int t = 0; for (int l = 0; l < 3; l++) t += a(i, l) * b(l, j); sym_assert(c(i, j) == t && d(i, j) == t + k(i, j), "product-int"); } }
  sym_assert(trace_matrix(m) == m[0] + m[3], "trace-int"); int r0 = (m[0] < 0 ? -m[0] : m[0]) + (m[1] < 0 ? -m[1] : m[1]), r1 = (m[2] < 0 ? -m[2] : m[2]) + (m[3] < 0 ? -m[3] : m[3]); sym_assert(infinity_norm(m) == (r0 < r1 ? r1 : r0), "infinity-norm-int"); sym_assert(doubledot_product(m, k) == -2 * m[0] - m[1] + m[3], "doubledot-int"); matrix<int, 3, 3> u(0); int e = sym_int_in("e", -1000, 1000), f = sym_int_in("f", -1000, 1000); u(0, 1) = 1; u(1, 0) = 1; u(2, 2) = -1; u(0, 0) = e; u(1, 2) = f; sym_assert(determinant(u) == 1, "determinant-unimodular"); auto w = inverse(u); bool ok = true; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int t = 0; for (int l = 0; l < 3; l++) t += u(i, l) * w(l, j); ok = ok & (t == (i == j)); } sym_assert(ok, "inverse-unimodular"); }
HARNESS(singles) { matrix<float, 2, 2> m; for (int i = 0; i < 4; i++) m[i] = (float)sym_real_in("m", -4, 4); double d = (double)m[0] * m[3] - (double)m[1] * m[2]; sym_assume(d > 0.1); double t = sym_native() ? 1e-3 : 0; sym_near(determinant(m), d, t, "determinant-float"); auto v = inverse(m); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_near(m(i, 0) * v(0, j) + m(i, 1) * v(1, j), i == j, t * 10, "inverse-float"); double f = two_norm(m); sym_near(f * f, (double)m[0] * m[0] + m[1] * m[1] + m[2] * m[2] + m[3] * m[3], t, "two-norm-float"); }
HARNESS(large) { matrix<int, 20, 17> a(1), a0; matrix<int, 17, 19> b(2); int x = sym_int_in("x", -1000, 1000); a(19, 16) = x; b(16, 18) = 5; a0 = a; auto c = matrix_multiply(a, b); matrix<int, 20, 19> e(1); matrix_multiply(a, b, e); auto t = transpose(a); bool ok = true, ot = true; for (int i = 0; i < 20; i++) for (int j = 0; j < 19; j++) { int w = 32 + (i == 19 ? x : 1) * (j == 18 ? 5 : 2); ok = ok & (c(i, j) == w) & (e(i, j) == w + 1); } for (int i = 0; i < 20; i++) for (int j = 0; j < 17; j++) ot = ot & (t(j, i) == a0(i, j)); sym_assert(ok, "product-large"); sym_assert(ot, "transpose-large"); auto id = identity_matrix<int, 20>(); ok = true; for (int i = 0; i < 20; i++) for (int j = 0; j < 20; j++) ok = ok & (id(i, j) == (i == j)); sym_assert(ok && trace_matrix(id) == 20, "identity-large"); array<int, 17> v(1); v[16] = 3; auto w = a * v; ok = true; for (int i = 0; i < 20; i++) ok = ok & (w[i] == 16 + 3 * (i == 19 ? x : 1)); sym_assert(ok, "matrix-vector-large"); id(3, 19) = x; sym_assert(infinity_norm(id) == 1 + (x < 0 ? -x : x) && one_norm(id) == 1 + (x < 0 ? -x : x), "norms-large"); }
HARNESS(exp_zero) { matrix<double, 2, 2> z(0); auto e = exponential(z); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) sym_eq(e(i, j), i == j, "exp-zero"); matrix<double, 1, 1> o(0); sym_eq(exponential(o)(0, 0), 1, "exp-zero1"); }
HARNESS(exp_nilpotent4) { double x = sym_real_in("x", 0, 1), y = sym_real_in("y", 0, 1), z = sym_real_in("z", 0, 1); matrix<double, 4, 4> m(0); m(1, 0) = x; m(2, 1) = y; m(3, 2) = z; m(3, 0) = 3 - z; // norm 3
  auto e = exponential(m); double w[4][4] = {{1, 0, 0, 0}, {x, 1, 0, 0}, {x * y / 2, y, 1, 0}, {3 - z + x * y * z / 6, y * z / 2, z, 1}}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) sym_eq(e(i, j), w[i][j], "exp-nilpotent4"); }
HARNESS(exp_diagonal3) { static const double v[] = {-2, -0.25, 0, 0.125, 1, 3, 20}; int i = sym_pick("i", 0, 6); matrix<double, 3, 3> m(0); m(0, 0) = 0.5; m(1, 1) = v[i]; m(2, 2) = -1; auto e = exponential(m); double x[] = {0.5, v[i], -1}; for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) if (k == j) sym_near(e(k, k) / std::exp(x[k]), 1, 1e-6, "exp-diagonal3"); else sym_eq(e(k, j), 0, "exp-diagonal3-off"); matrix<double, 1, 1> o; o(0, 0) = v[i]; if (v[i] != 0) sym_near(exponential(o)(0, 0) / std::exp(v[i]), 1, 1e-6, "exp-diagonal1"); }
