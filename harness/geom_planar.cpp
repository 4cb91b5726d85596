// Areas, centroids, midpoints and normals of planar shapes, over every vertex position.
#include "sym.h"
#include <cassert>
#include <vector>
#include <array>
#include <cmath>
#include <ristra/math/general.h>
#include <ristra/math/vector.h>
#include <ristra/geometry/point.h>
#include <ristra/geometry/shapes/triangle.h>
#include <ristra/geometry/shapes/polygon.h>
#include <ristra/geometry/shapes/quadrilateral.h>
#include <ristra/assertions/errors.h>
#include <ristra/geometry/centroid.h>
#include <ristra/geometry/area.h>
#include <ristra/geometry/normal.h>
using namespace ristra; using namespace ristra::geometry; using namespace ristra::geometry::shapes; using std::size_t;
using P2 = point<double, 2>; using P3 = point<double, 3>;
static P2 p2(const char *n) { double x = sym_real(n), y = sym_real(n); return P2(x, y); }
static P3 p3(const char *n) { double x = sym_real(n), y = sym_real(n), z = sym_real(n); return P3(x, y, z); }
// signed area and first moment as the sum over the triangles (first vertex, i, i+1)
struct ref { double a = 0, mx = 0, my = 0, sx = 0, sy = 0; };
static ref fan(const P2 *p, int n) { ref r; for (int i = 1; i + 1 < n; i++) { double t = ((p[i][0] - p[0][0]) * (p[i + 1][1] - p[0][1]) - (p[i + 1][0] - p[0][0]) * (p[i][1] - p[0][1])) / 2; r.a += t; r.mx += t * (p[0][0] + p[i][0] + p[i + 1][0]) / 3; r.my += t * (p[0][1] + p[i][1] + p[i + 1][1]) / 3; } for (int i = 0; i < n; i++) { r.sx += p[i][0]; r.sy += p[i][1]; } return r; }
static void area_is(double a, const ref &r, const char *l, const char *l0) { sym_le(0, a, l0); sym_eq(a * a, r.a * r.a, l); }
static void cent_is(const P2 &c, const ref &r, const char *l) { sym_eq(c[0] * r.a, r.mx, l); sym_eq(c[1] * r.a, r.my, l); }
HARNESS(triangle2) { P2 p[3] = {p2("a"), p2("b"), p2("c")}; ref r = fan(p, 3); area_is(triangle<2>::area(p[0], p[1], p[2]), r, "area", "area>=0"); auto c = triangle<2>::centroid(p[0], p[1], p[2]), m = triangle<2>::midpoint(p[0], p[1], p[2]); for (int d = 0; d < 2; d++) { sym_eq(3 * c[d], p[0][d] + p[1][d] + p[2][d], "centroid"); sym_eq(m[d], c[d], "midpoint"); } auto n = triangle<2>::normal(p[0], p[1], p[2]); sym_eq(n[1], r.a, "normal"); sym_eq(n[0], 0, "normal0"); }
template<int N> void poly_iter() {
  std::vector<P2> v; for (int i = 0; i < N; i++) v.push_back(p2("p")); ref r = fan(v.data(), N);
  area_is(polygon<2>::area(v), r, "area", "area>=0"); area_is(polygon<2>::area(v.begin(), v.end()), r, "area-iter", "area-iter>=0"); area_is(geometry::area_2d(v), r, "area-free", "area-free>=0");
  auto n = polygon<2>::normal(v); sym_eq(n[1], r.a, "normal"); sym_eq(n[0], 0, "normal0"); auto ni = polygon<2>::normal(v.begin(), v.end()); sym_eq(ni[1], r.a, "normal-iter");
  auto m = polygon<2>::midpoint(v); sym_eq(N * m[0], r.sx, "midpoint-x"); sym_eq(N * m[1], r.sy, "midpoint-y");
  sym_assume(r.a != 0); cent_is(polygon<2>::centroid(v), r, "centroid"); cent_is(polygon<2>::centroid(v.begin(), v.end()), r, "centroid-iter"); cent_is(geometry::centroid_2d(v), r, "centroid-free");
}
HARNESS(polygon3) { poly_iter<3>(); } HARNESS(polygon4) { poly_iter<4>(); } HARNESS(polygon5) { poly_iter<5>(); } THOROUGH_HARNESS(polygon6) { poly_iter<6>(); } THOROUGH_HARNESS(polygon8) { poly_iter<8>(); }
HARNESS(variadic3) { P2 p[3] = {p2("a"), p2("b"), p2("c")}; ref r = fan(p, 3); area_is(polygon<2>::area(p[0], p[1], p[2]), r, "area", "area>=0"); auto n = polygon<2>::normal(p[0], p[1], p[2]); sym_eq(n[1], r.a, "normal"); auto m = polygon<2>::midpoint(p[0], p[1], p[2]); sym_eq(3 * m[0], r.sx, "midpoint"); sym_assume(r.a != 0); cent_is(polygon<2>::centroid(p[0], p[1], p[2]), r, "centroid"); }
HARNESS(quad2) { P2 p[4] = {p2("a"), p2("b"), p2("c"), p2("d")}; ref r = fan(p, 4); using Q = quadrilateral<2>; area_is(Q::area(p[0], p[1], p[2], p[3]), r, "area", "area>=0"); auto n = Q::normal(p[0], p[1], p[2], p[3]); sym_eq(n[1], r.a, "normal"); auto m = Q::midpoint(p[0], p[1], p[2], p[3]); sym_eq(4 * m[0], r.sx, "midpoint-x"); sym_eq(4 * m[1], r.sy, "midpoint-y");
  area_is(geometry::area(p[0], p[1], p[2], p[3]), r, "area-free", "area-free>=0"); auto pm = polygon<2>::midpoint(p[0], p[1], p[2], p[3]); sym_eq(4 * pm[1], r.sy, "polygon-midpoint"); sym_assume(r.a != 0); cent_is(Q::centroid(p[0], p[1], p[2], p[3]), r, "centroid"); cent_is(geometry::centroid(p[0], p[1], p[2], p[3]), r, "centroid-free"); }
HARNESS(pentagon2) { P2 p[5] = {p2("a"), p2("b"), p2("c"), p2("d"), p2("e")}; ref r = fan(p, 5); area_is(polygon<2>::area(p[0], p[1], p[2], p[3], p[4]), r, "area", "area>=0"); area_is(geometry::area(p[0], p[1], p[2], p[3], p[4]), r, "area-free", "area-free>=0"); sym_assume(r.a != 0); cent_is(polygon<2>::centroid(p[0], p[1], p[2], p[3], p[4]), r, "centroid"); cent_is(geometry::centroid(p[0], p[1], p[2], p[3], p[4]), r, "centroid-free"); }
HARNESS(normals_free) { P2 a = p2("a"), b = p2("b"); auto n = geometry::normal(a, b); sym_eq(n[0], a[1] - b[1], "normal2-x"); sym_eq(n[1], b[0] - a[0], "normal2-y"); P3 c = p3("c"), d = p3("d"); auto m = geometry::normal(c, d); sym_eq(m[0], c[1] * d[2] - c[2] * d[1], "normal3-x"); sym_eq(m[1], c[2] * d[0] - c[0] * d[2], "normal3-y"); sym_eq(m[2], c[0] * d[1] - c[1] * d[0], "normal3-z"); }
static P3 cr(const P3 &a, const P3 &b) { return P3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
HARNESS(triangle3) { P3 a = p3("a"), b = p3("b"), c = p3("c"); P3 u(b[0] - a[0], b[1] - a[1], b[2] - a[2]), v(c[0] - a[0], c[1] - a[1], c[2] - a[2]); P3 x = cr(u, v); auto n = triangle<3>::normal(a, b, c); auto m = triangle<3>::midpoint(a, b, c), g = triangle<3>::centroid(a, b, c); for (int d = 0; d < 3; d++) { sym_eq(2 * n[d], x[d], "normal"); sym_eq(3 * m[d], a[d] + b[d] + c[d], "midpoint"); sym_eq(g[d], m[d], "centroid"); }
  double A = triangle<3>::area(a, b, c); sym_le(0, A, "area>=0"); sym_eq(4 * A * A, x[0] * x[0] + x[1] * x[1] + x[2] * x[2], "area"); }
// the vector area of any closed polygon, planar or not
template<int N> void vecarea() {
  std::vector<P3> v; for (int i = 0; i < N; i++) v.push_back(p3("p")); double s[3] = {0, 0, 0}, m[3] = {0, 0, 0}; for (int i = 0; i < N; i++) { P3 x = cr(v[i], v[(i + 1) % N]); for (int d = 0; d < 3; d++) { s[d] += x[d] / 2; m[d] += v[i][d]; } }
  auto n = polygon<3>::normal(v), k = polygon<3>::normal(v.begin(), v.end()); auto c = polygon<3>::midpoint(v); for (int d = 0; d < 3; d++) { sym_eq(n[d], s[d], "vector-area"); sym_eq(k[d], s[d], "vector-area-iter"); sym_eq(N * c[d], m[d], "midpoint"); }
}
HARNESS(vector_area4) { vecarea<4>(); } HARNESS(vector_area5) { vecarea<5>(); } THOROUGH_HARNESS(vector_area7) { vecarea<7>(); }
HARNESS(vector_area_args) { P3 p[4] = {p3("a"), p3("b"), p3("c"), p3("d")}; double s[3] = {0, 0, 0}; for (int i = 0; i < 4; i++) { P3 x = cr(p[i], p[(i + 1) % 4]); for (int d = 0; d < 3; d++) s[d] += x[d] / 2; } auto n = polygon<3>::normal(p[0], p[1], p[2], p[3]); auto q = quadrilateral<3>::normal(p[0], p[1], p[2], p[3]); auto m = quadrilateral<3>::midpoint(p[0], p[1], p[2], p[3]); for (int d = 0; d < 3; d++) { sym_eq(n[d], s[d], "polygon"); sym_eq(q[d], s[d], "quadrilateral"); sym_eq(4 * m[d], p[0][d] + p[1][d] + p[2][d] + p[3][d], "midpoint"); } }
// any parallelogram in space
HARNESS(parallelogram) { P3 o = p3("o"), u = p3("u"), w = p3("w"); P3 a = o, b = o + u, c = o + u + w, d = o + w; P3 x = cr(u, w); double xx = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]; sym_assume(xx > 0);
  double A = quadrilateral<3>::area(a, b, c, d), B = polygon<3>::area(a, b, c, d); sym_le(0, A, "area>=0"); sym_eq(A * A, xx, "area"); sym_eq(B, A, "polygon-area"); auto g = quadrilateral<3>::centroid(a, b, c, d); for (int k = 0; k < 3; k++) sym_eq(g[k], o[k] + (u[k] + w[k]) / 2, "centroid");
  std::vector<P3> v{a, b, c, d}; sym_eq(polygon<3>::area(v), A, "vector-area"); auto h = polygon<3>::centroid(v); for (int k = 0; k < 3; k++) sym_eq(h[k], g[k], "vector-centroid"); }
// any convex polygon in a tilted plane
template<int N> void planar() {
  const double e[3] = {2. / 3, 1. / 3, 2. / 3}, f[3] = {-2. / 3, 2. / 3, 1. / 3}; P2 q[N]; std::vector<P3> v; double ox = 7, oy = -2, oz = 3;
  for (int i = 0; i < N; i++) { q[i] = p2("q"); v.push_back(P3(ox + q[i][0] * e[0] + q[i][1] * f[0], oy + q[i][0] * e[1] + q[i][1] * f[1], oz + q[i][0] * e[2] + q[i][1] * f[2])); }
  ref r = fan(q, N); P2 m(0, 0); for (int i = 0; i < N; i++) { m[0] += q[i][0] / N; m[1] += q[i][1] / N; }
  for (int i = 0; i < N; i++) { P2 &a = q[i], &b = q[(i + 1) % N]; sym_assume((b[0] - a[0]) * (m[1] - a[1]) - (m[0] - a[0]) * (b[1] - a[1]) > 0); }   // star-shaped about the midpoint
  sym_eq(polygon<3>::area(v), r.a, "planar-area"); auto c = polygon<3>::centroid(v);
  for (int d = 0; d < 3; d++) { double o = d == 0 ? ox : d == 1 ? oy : oz; sym_eq(c[d] * r.a, o * r.a + r.mx * e[d] + r.my * f[d], "planar-centroid"); }
}
HARNESS(planar4) { planar<4>(); } THOROUGH_HARNESS(planar5) { planar<5>(); }
// the overload picked for a list of points must not depend on which headers are included (known finding)
HARNESS(list_centroid) { std::vector<P2> v; for (int i = 0; i < 4; i++) v.push_back(p2("p")); ref r = fan(v.data(), 4); sym_assume(r.a != 0); cent_is(geometry::centroid(v), r, "list-centroid"); }
// many vertices: most of them fixed on a convex curve, any position of the others
template<int N> void many2() {
  std::vector<P2> v; for (int i = 0; i < N; i++) v.push_back(P2(i - N / 3, i * (i - 7) / 8.0)); v[N / 2] = p2("p"); v[N - 1] = p2("q"); ref r = fan(v.data(), N);
  area_is(polygon<2>::area(v), r, "area", "area>=0"); area_is(polygon<2>::area(v.begin(), v.end()), r, "area-iter", "area-iter>=0"); area_is(geometry::area_2d(v), r, "area-free", "area-free>=0"); auto n = polygon<2>::normal(v), ni = polygon<2>::normal(v.begin(), v.end()); sym_eq(n[1], r.a, "normal"); sym_eq(ni[1], r.a, "normal-iter"); auto m = polygon<2>::midpoint(v); sym_eq(N * m[0], r.sx, "midpoint-x"); sym_eq(N * m[1], r.sy, "midpoint-y");
  sym_assume(r.a != 0); cent_is(polygon<2>::centroid(v), r, "centroid"); cent_is(polygon<2>::centroid(v.begin(), v.end()), r, "centroid-iter"); cent_is(geometry::centroid_2d(v), r, "centroid-free"); }
HARNESS(many12) { many2<12>(); } HARNESS(many40) { many2<40>(); } HARNESS(many130) { many2<130>(); }
template<int N> void many3(bool flip) {
  const double e[3] = {2. / 3, 1. / 3, 2. / 3}, f[3] = {-2. / 3, 2. / 3, 1. / 3}; P3 o = p3("o"); std::vector<P2> q; std::vector<P3> v; for (int i = 0; i < N; i++) { int k = flip ? N - 1 - i : i; q.push_back(P2(3 * k, 0.75 * k * k)); v.push_back(P3(0, 0, 0)); for (int d = 0; d < 3; d++) v[i][d] = o[d] + q[i][0] * e[d] + q[i][1] * f[d]; }
  ref r = fan(q.data(), N); double s = r.a < 0 ? -r.a : r.a; sym_near(polygon<3>::area(v), s, 1e-6 * s, "planar-area"); sym_near(polygon<3>::area(v.begin(), v.end()), s, 1e-6 * s, "planar-area-iter"); auto c = polygon<3>::centroid(v), ci = polygon<3>::centroid(v.begin(), v.end()), n = polygon<3>::normal(v); auto m = polygon<3>::midpoint(v); double nn = 0;
  for (int d = 0; d < 3; d++) { double w = o[d] + (r.mx * e[d] + r.my * f[d]) / r.a; sym_near(c[d], w, 1e-5 * s, "planar-centroid"); sym_near(ci[d], w, 1e-5 * s, "planar-centroid-iter"); sym_near(m[d], o[d] + (r.sx * e[d] + r.sy * f[d]) / N, 1e-6 * s, "planar-midpoint"); nn += n[d] * n[d]; } sym_near(nn, r.a * r.a, 1e-6 * r.a * r.a, "planar-normal"); }
HARNESS(many_planar7) { many3<7>(false); } HARNESS(many_planar12) { many3<12>(true); } HARNESS(many_planar40) { many3<40>(false); }
