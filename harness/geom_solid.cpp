// Volumes and centroids of solids, over every vertex position.
#include "sym.h"
#include <cassert>
#include <vector>
#include <array>
#include <cmath>
#include <ristra/math/general.h>
#include <ristra/math/vector.h>
#include <ristra/geometry/point.h>
#include <ristra/geometry/shapes/triangle.h>
#include <ristra/geometry/shapes/polygon.h>
#include <ristra/geometry/shapes/quadrilateral.h>
#include <ristra/geometry/shapes/tetrahedron.h>
#include <ristra/geometry/shapes/hexahedron.h>
#include <ristra/geometry/shapes/polyhedron.h>
using namespace ristra; using namespace ristra::geometry; using namespace ristra::geometry::shapes; using std::size_t;
using P3 = point<double, 3>; using PH = polyhedron<P3>;
static P3 p3(const char *n) { double x = sym_real(n), y = sym_real(n), z = sym_real(n); return P3(x, y, z); }
static double det(const P3 &o, const P3 &a, const P3 &b, const P3 &c) { double u[3], v[3], w[3]; for (int d = 0; d < 3; d++) { u[d] = a[d] - o[d]; v[d] = b[d] - o[d]; w[d] = c[d] - o[d]; } return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]); }
HARNESS(tetrahedron) { P3 a = p3("a"), b = p3("b"), c = p3("c"), d = p3("d"); double V = tetrahedron::volume(a, b, c, d), s = det(a, b, c, d) / 6; sym_le(0, V, "volume>=0"); sym_eq(V * V, s * s, "volume"); auto m = tetrahedron::centroid(a, b, c, d), q = tetrahedron::midpoint(a, b, c, d); for (int k = 0; k < 3; k++) { sym_eq(4 * m[k], a[k] + b[k] + c[k] + d[k], "centroid"); sym_eq(q[k], m[k], "midpoint"); } }
// a tetrahedron as a polyhedron: the general formula agrees with the exact one, in either orientation
HARNESS(tet_polyhedron) { P3 a = p3("a"), b = p3("b"), c = p3("c"), d = p3("d"); double s = det(a, b, c, d) / 6; sym_assume(s != 0); PH h; int o = sym_pick("orientation", 0, 1); if (o) { h.insert({a, c, b}); h.insert({a, b, d}); h.insert({b, c, d}); h.insert({c, a, d}); } else { h.insert({a, b, c}); h.insert({b, a, d}); h.insert({c, b, d}); h.insert({a, c, d}); }
  double V = h.volume(); sym_le(0, V, "volume>=0"); sym_eq(V * V, s * s, "volume"); auto g = h.centroid(); for (int k = 0; k < 3; k++) sym_eq(4 * g[k], a[k] + b[k] + c[k] + d[k], "centroid"); auto m = h.midpoint(); for (int k = 0; k < 3; k++) sym_eq(4 * m[k], a[k] + b[k] + c[k] + d[k], "midpoint"); }
// signed volume of the hexahedron whose faces are cut at their midpoints, as tetrahedra about vertex 0
static const int F[6][4] = {{0, 1, 2, 3}, {4, 7, 6, 5}, {0, 4, 5, 1}, {1, 5, 6, 2}, {2, 6, 7, 3}, {3, 7, 4, 0}};
static double hexvol(const P3 *p) { double s = 0; for (auto &f : F) { P3 m(0, 0, 0); for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) m[d] += p[f[i]][d] / 4; for (int i = 0; i < 4; i++) s += det(p[0], p[f[i]], p[f[(i + 1) % 4]], m) / 6; } return s; }
HARNESS(hex_volume) { P3 p[8]; for (auto &x : p) x = p3("p"); double s = hexvol(p), V = hexahedron::volume(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); sym_le(0, V, "volume>=0"); sym_eq(V * V, s * s, "volume"); }
HARNESS(hex_midpoint) { P3 p[8]; for (auto &x : p) x = p3("p"); auto m = hexahedron::midpoint(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); for (int d = 0; d < 3; d++) { double s = 0; for (auto &x : p) s += x[d]; sym_eq(8 * m[d], s, "midpoint"); } }
HARNESS(hex_as_polyhedron) { P3 p[8]; for (auto &x : p) x = p3("p"); double s = hexvol(p); PH h; for (auto &f : F) h.insert({p[f[0]], p[f[1]], p[f[2]], p[f[3]]}); double V = h.volume(); sym_le(0, V, "volume>=0"); sym_eq(V * V, s * s, "volume"); auto m = h.midpoint(); for (int d = 0; d < 3; d++) { double t = 0; for (auto &x : p) t += x[d]; sym_eq(8 * m[d], t, "midpoint"); } }
// centroid of a distorted hexahedron: a brick of any size, with one vertex moved anywhere
static void hexcent(const P3 *p, double s, const double *mom) { auto c = hexahedron::centroid(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); PH h; for (auto &f : F) h.insert({p[f[0]], p[f[1]], p[f[2]], p[f[3]]}); auto g = h.centroid(); for (int d = 0; d < 3; d++) { sym_eq(c[d] * s, mom[d], "hexahedron-centroid"); sym_eq(g[d] * s, mom[d], "polyhedron-centroid"); } }
static double moments(const P3 *p, double *mom) { double s = 0; mom[0] = mom[1] = mom[2] = 0; for (auto &f : F) { P3 m(0, 0, 0); for (int i = 0; i < 4; i++) for (int d = 0; d < 3; d++) m[d] += p[f[i]][d] / 4; for (int i = 0; i < 4; i++) { const P3 &a = p[f[i]], &b = p[f[(i + 1) % 4]]; double t = det(p[0], a, b, m) / 6; s += t; for (int d = 0; d < 3; d++) mom[d] += t * (p[0][d] + a[d] + b[d] + m[d]) / 4; } } return s; }
HARNESS(hex_centroid_moved) { P3 p[8]; double h[3] = {sym_real("h"), sym_real("h"), sym_real("h")}; for (int i = 0; i < 8; i++) { int x = (i == 1 || i == 2 || i == 5 || i == 6), y = (i == 2 || i == 3 || i == 6 || i == 7), z = i >= 4; p[i] = P3(x * h[0], y * h[1], z * h[2]); } int k = sym_pick("vertex", 0, 7); p[k] = p3("q"); double m[3], s = moments(p, m); sym_assume(s != 0); hexcent(p, s, m); }
HARNESS(parallelepiped) { P3 o = p3("o"), a = p3("a"), b = p3("b"), c = p3("c"); P3 z(0, 0, 0); double s = det(z, a, b, c); sym_assume(s != 0); P3 p[8] = {o, o + a, o + a + b, o + b, o + c, o + a + c, o + a + b + c, o + b + c}; double V = hexahedron::volume(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); sym_eq(V * V, s * s, "volume"); double m[3]; for (int d = 0; d < 3; d++) m[d] = s * (o[d] + (a[d] + b[d] + c[d]) / 2); hexcent(p, s, m); }
THOROUGH_HARNESS(hex_centroid_two) { P3 p[8]; for (int i = 0; i < 8; i++) { int x = (i == 1 || i == 2 || i == 5 || i == 6), y = (i == 2 || i == 3 || i == 6 || i == 7), z = i >= 4; p[i] = P3(x * 2, y * 3, z * 5); } int k = sym_pick("vertex", 0, 7); p[k] = p3("q"); p[(k + sym_pick("other", 1, 7)) % 8] = p3("r"); double m[3], s = moments(p, m); sym_assume(s != 0); hexcent(p, s, m); }
// a pyramid over any quadrilateral and a wedge: faces with different numbers of vertices
HARNESS(pyramid) { P3 a = p3("a"), u = p3("u"), w = p3("w"), t = p3("t"); P3 b = a + u, c = a + u + w, d = a + w; PH h; h.insert({a, d, c, b}); h.insert({a, b, t}); h.insert({b, c, t}); h.insert({c, d, t}); h.insert({d, a, t}); double s = (det(a, b, c, t) + det(a, c, d, t)) / 6; sym_assume(s != 0); double V = h.volume(); sym_le(0, V, "volume>=0"); sym_eq(V * V, s * s, "volume"); auto g = h.centroid(); for (int k = 0; k < 3; k++) { double base = a[k] + (u[k] + w[k]) / 2; sym_eq(g[k], base + (t[k] - base) / 4, "centroid"); } auto m = h.midpoint(); for (int k = 0; k < 3; k++) { double base = a[k] + (u[k] + w[k]) / 2; sym_eq(5 * m[k], base + (4 * t[k] + 2 * (a[k] + b[k] + c[k] + d[k])) / 3, "midpoint-of-faces"); } }
HARNESS(prism) { P3 a = p3("a"), u = p3("u"), w = p3("w"), e = p3("e"); P3 b = a + u, c = a + w, A = a + e, B = b + e, C = c + e; std::vector<P3> bot{a, c, b}; PH h; h.insert(bot.begin(), bot.end()); h.insert({A, B, C}); h.insert({a, b, B, A}); h.insert({b, c, C, B}); h.insert({c, a, A, C}); P3 z(0, 0, 0); double s = det(z, u, w, e) / 2; sym_assume(s != 0); double V = h.volume(); sym_eq(V * V, s * s, "volume"); auto g = h.centroid(); for (int k = 0; k < 3; k++) sym_eq(g[k], a[k] + (u[k] + w[k]) / 3 + e[k] / 2, "centroid"); }
HARNESS(midpoint_args) { P3 a = p3("a"), b = p3("b"), c = p3("c"); auto m = PH::midpoint(a, b, c); for (int k = 0; k < 3; k++) sym_eq(3 * m[k], a[k] + b[k] + c[k], "midpoint"); }
// a prism over a polygon of many sides, anywhere, along any direction, in either orientation; asked twice, and as a copy
template<int N> void many() {
  P3 o = p3("o"), e = p3("e"); std::vector<P3> bot, top; double ar = 0, cx = 0, cy = 0; for (int i = 0; i < N; i++) { bot.push_back(P3(o[0] + 2 * i, o[1] + i * i / 4.0, o[2])); top.push_back(P3(bot[i][0] + e[0], bot[i][1] + e[1], bot[i][2] + e[2])); }
  for (int i = 1; i + 1 < N; i++) { double t = (2 * i * (i + 1) * (i + 1) - 2 * (i + 1) * i * i) / 8.0; ar += t; cx += t * (2 * i + 2 * (i + 1)) / 3; cy += t * (i * i + (i + 1) * (i + 1)) / 12.0; } cx /= ar; cy /= ar;
  sym_assume(e[2] != 0); bool flip = sym_pick("flip", 0, 1); auto rev = [](std::vector<P3> v) { return std::vector<P3>(v.rbegin(), v.rend()); }; auto b = flip ? bot : rev(bot), t = flip ? rev(top) : top; PH h; h.insert(b.begin(), b.end()); h.insert(t.begin(), t.end());
  for (int i = 0; i < N; i++) { int j = (i + 1) % N; if (flip) h.insert({bot[i], top[i], top[j], bot[j]}); else h.insert({bot[i], bot[j], top[j], top[i]}); }
  PH k = h; for (int pass = 0; pass < 2; pass++) { PH &x = pass ? k : h; double V = x.volume(); sym_le(0, V, "many-volume>=0"); sym_eq(V * V, ar * ar * e[2] * e[2], "many-volume"); auto g = x.centroid(); sym_near(g[0], o[0] + cx + e[0] / 2, 1e-6, "many-centroid"); sym_near(g[1], o[1] + cy + e[1] / 2, 1e-6, "many-centroid"); sym_near(g[2], o[2] + e[2] / 2, 1e-6, "many-centroid"); sym_eq(x.volume(), V, "volume-again"); auto q = x.midpoint(); for (int c = 0; c < 3; c++) { double m = 0; for (int i = 0; i < N; i++) m += bot[i][c]; sym_near(q[c], m / N + e[c] / 2, 1e-6, "many-midpoint"); } }
}
HARNESS(many6) { many<6>(); } HARNESS(many20) { many<20>(); } THOROUGH_HARNESS(many70) { many<70>(); }
