// Dimensioned arrays, points and space vectors.
#include "sym.h"
#include <cassert>
#include <cstddef>
#include <array>
#include <vector>
#include <initializer_list>
#include <cmath>
#include <ristra/utils/dimensioned_array.h>
#include <ristra/geometry/point.h>
#include <ristra/geometry/space_vector.h>
using std::size_t;
namespace G = ristra::geometry;
template<class T, size_t N> using DA = ristra::utils::dimensioned_array__<T, N, 1>;
template<size_t N> DA<double, N> mk(const char *n) { DA<double, N> a; for (size_t i = 0; i < N; i++) a[i] = sym_real(n); return a; }
template<size_t N> void ops() {
  const auto a0 = mk<N>("a"), b0 = mk<N>("b"); double s = sym_real("s"); DA<double, N> a = a0;
  sym_assert(a.size() == N, "size");
#define OP(op, label) a = a0; { auto &r = (a op b0); sym_assert(&r == &a, label "-returns"); } for (size_t i = 0; i < N; i++) { double e = a0[i]; e op b0[i]; sym_eq(a[i], e, label "-array"); } \
  a = b0; a op a; for (size_t i = 0; i < N; i++) { double e = b0[i]; e op b0[i]; sym_eq(a[i], e, label "-self"); } \
  a = a0; a op s; for (size_t i = 0; i < N; i++) { double e = a0[i]; e op s; sym_eq(a[i], e, label "-scalar"); } \
  for (size_t k = 0; k < N; k++) { a = b0; a op a[k]; for (size_t i = 0; i < N; i++) { double e = b0[i]; e op b0[k]; sym_eq(a[i], e, label "-own-component"); } }
  OP(+=, "plus") OP(-=, "minus") OP(*=, "times")
  for (size_t i = 0; i < N; i++) sym_assume(b0[i] != 0); sym_assume(s != 0);
  OP(/=, "divide")
  auto p = a0 + b0, m = a0 - b0, d = a0 / s; for (size_t i = 0; i < N; i++) { sym_eq(p[i], a0[i] + b0[i], "sum"); sym_eq(m[i], a0[i] - b0[i], "difference"); sym_eq(d[i] * s, a0[i], "quotient"); }
  DA<double, N> c(s); for (size_t i = 0; i < N; i++) sym_eq(c[i], s, "fill"); c = a0; for (size_t i = 0; i < N; i++) sym_eq(c[i], a0[i], "copy"); DA<double, N> e(a0); for (size_t i = 0; i < N; i++) sym_eq(e[i], a0[i], "copy-construct"); c = s; for (size_t i = 0; i < N; i++) sym_eq(c[i], s, "assign-value"); e = e; for (size_t i = 0; i < N; i++) sym_eq(e[i], a0[i], "self-assign");
  for (size_t k = 0; k < N; k++) { e = b0; auto q = e / e[k]; sym_eq(q[0], b0[0] / b0[k], "quotient-own"); sym_eq(q[N - 1], b0[N - 1] / b0[k], "quotient-own"); e = e[k]; for (size_t i = 0; i < N; i++) sym_eq(e[i], b0[k], "assign-own-component"); }
}
HARNESS(dim1) { ops<1>(); } HARNESS(dim2) { ops<2>(); } HARNESS(dim3) { ops<3>(); } THOROUGH_HARNESS(dim7) { ops<7>(); }
HARNESS(construct) { double x = sym_real("x"), y = sym_real("y"), z = sym_real("z"); DA<double, 3> a(x, y, z), b{x, y, z}; using ax = ristra::utils::axis;
  sym_eq(a[ax::x], x, "x-axis"); sym_eq(a[ax::y], y, "y-axis"); sym_eq(a[ax::z], z, "z-axis"); for (int i = 0; i < 3; i++) sym_eq(a[i], b[i], "list"); sym_eq(b[0], x, "list0"); sym_eq(b[2], z, "list2"); }
HARNESS(ints) { DA<int, 3> a, b; for (int i = 0; i < 3; i++) { a[i] = sym_int_in("a", -1000, 1000); b[i] = sym_int_in("b", 1, 1000); } int s = sym_int_in("s", 1, 1000); auto q = a / s; auto c = a; c /= b; auto m = a; m *= b; for (int i = 0; i < 3; i++) { sym_assert(q[i] == a[i] / s, "int-quotient"); sym_assert(c[i] == a[i] / b[i], "int-divide"); sym_assert(m[i] == a[i] * b[i], "int-times"); } }
template<size_t N> void sv() {
  G::space_vector<double, N> a, b; G::point<double, N> p, q; double d = 0, aa = 0, pq = 0, s = sym_real("s");
  for (size_t i = 0; i < N; i++) { a[i] = sym_real("a"); b[i] = sym_real("b"); p[i] = sym_real("p"); q[i] = sym_real("q"); d += a[i] * b[i]; aa += a[i] * a[i]; pq += (p[i] - q[i]) * (p[i] - q[i]); }
  sym_eq(G::dot(a, b), d, "dot"); double m = G::magnitude(a); sym_le(0, m, "magnitude>=0"); sym_eq(m * m, aa, "magnitude"); auto t = G::operator*(a, s); auto v = G::point_to_vector(p); auto h = G::midpoint(p, q);
  for (size_t i = 0; i < N; i++) { sym_eq(t[i], s * a[i], "scale"); sym_eq(G::operator*(a, a[0])[i], a[0] * a[i], "scale-own"); sym_eq(v[i], p[i], "point-to-vector"); sym_eq(2 * h[i], p[i] + q[i], "midpoint"); }
  double r = G::distance(p, q); sym_le(0, r, "distance>=0"); sym_eq(r * r, pq, "distance"); sym_eq(G::distance(q, p), r, "distance-symmetric");
}
HARNESS(space1) { sv<1>(); } HARNESS(space2) { sv<2>(); } HARNESS(space3) { sv<3>(); }
HARNESS(cross) {
  G::space_vector<double, 1> u; u[0] = sym_real("u"); sym_eq(G::cross_magnitude(u, u), 0, "cross1");
  G::space_vector<double, 2> a, b; G::space_vector<double, 3> c, e; for (int i = 0; i < 2; i++) { a[i] = sym_real("a"); b[i] = sym_real("b"); } for (int i = 0; i < 3; i++) { c[i] = sym_real("c"); e[i] = sym_real("e"); }
  double x2 = a[0] * b[1] - a[1] * b[0], m2 = G::cross_magnitude(a, b); sym_le(0, m2, "cross2>=0"); sym_eq(m2 * m2, x2 * x2, "cross2");
  double cc = 0, ee = 0, ce = 0; for (int i = 0; i < 3; i++) { cc += c[i] * c[i]; ee += e[i] * e[i]; ce += c[i] * e[i]; } double m3 = G::cross_magnitude(c, e); sym_le(0, m3, "cross3>=0"); sym_eq(m3 * m3, cc * ee - ce * ce, "cross3-lagrange");
  auto n = G::normal(c, e); double nc = 0, ne = 0; for (int i = 0; i < 3; i++) { nc += n[i] * c[i]; ne += n[i] * e[i]; } sym_eq(nc, 0, "normal3-perp-a"); sym_eq(ne, 0, "normal3-perp-b"); sym_eq(n[2], c[0] * e[1] - c[1] * e[0], "normal3-hand"); sym_eq(n[0], c[1] * e[2] - c[2] * e[1], "normal3-x");
  G::point<double, 2> p(a[0], a[1]), q(b[0], b[1]); auto w = G::normal(p, q); double dx = q[0] - p[0], dy = q[1] - p[1]; sym_eq(w[0], -dy, "normal2-x"); sym_eq(w[1], dx, "normal2-y");
}
HARNESS(centroids) { int n = sym_pick("n", 1, 4); std::vector<G::point<double, 2>> v; double x = 0, y = 0; for (int i = 0; i < n; i++) { double a = sym_real("a"), b = sym_real("b"); v.push_back(G::point<double, 2>(a, b)); x += a; y += b; }
  G::point<double, 2> a = v[0], b = v[n - 1]; auto c = G::centroid({a, b}); sym_eq(2 * c[0], a[0] + b[0], "list-centroid-x"); sym_eq(2 * c[1], a[1] + b[1], "list-centroid-y");
  auto cv = G::centroid<std::vector, double, 2>(v); sym_eq(n * cv[0], x, "vector-centroid-x"); sym_eq(n * cv[1], y, "vector-centroid-y"); }
HARNESS(centroids_int) { int n = sym_pick("n", 1, 3); std::vector<G::point<int, 2>> v; int x = 0, y = 0; for (int i = 0; i < n; i++) { int a = sym_pick("a", 0, 3) * 5 - 9, b = 2 * i - 7; v.push_back(G::point<int, 2>(a, b)); x += a; y += b; }
  auto cv = G::centroid<std::vector, int, 2>(v); sym_assert(cv[0] == x / n && cv[1] == y / n, "int-centroid");
  auto cl = G::centroid({v[0], v[n - 1]}); sym_assert(cl[0] == (v[0][0] + v[n - 1][0]) / 2 && cl[1] == (v[0][1] + v[n - 1][1]) / 2, "int-list-centroid"); }
