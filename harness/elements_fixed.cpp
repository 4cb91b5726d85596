// Finite elements with fixed nodes: shape functions, partial derivatives and mapping, at every point.
#include "sym.h"
#include <vector>
#include <cmath>
#include <ristra/elements/elements.h>
using namespace ristra::elements; using vec = std::vector<double>; using mat = std::vector<vec>;
// reference nodes, read off the numbering figures of the documentation
static const double T = 1. / 3;
static const double Q4[4][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}};
static const double Q8[8][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}, {0, -1}, {1, 0}, {0, 1}, {-1, 0}};
static const double Q12[12][2] = {{-1, -1}, {1, -1}, {1, 1}, {-1, 1}, {-T, -1}, {T, -1}, {T, 1}, {-T, 1}, {-1, -T}, {1, -T}, {1, T}, {-1, T}};
static const double H8[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, -1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, 1, -1}, {1, 1, 1}, {-1, 1, 1}};
static const double H20[20][3] = {{-1, -1, -1}, {1, -1, -1}, {1, -1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, 1, -1}, {1, 1, 1}, {-1, 1, 1},
  {0, -1, -1}, {1, -1, 0}, {0, -1, 1}, {-1, -1, 0}, {0, 1, -1}, {1, 1, 0}, {0, 1, 1}, {-1, 1, 0}, {-1, 0, -1}, {1, 0, -1}, {1, 0, 1}, {-1, 0, 1}};
static const double H32[32][3] = {{-1, -1, -1}, {1, -1, -1}, {1, -1, 1}, {-1, -1, 1}, {-1, 1, -1}, {1, 1, -1}, {1, 1, 1}, {-1, 1, 1},
  {-1, -1, -T}, {1, -1, -T}, {1, -1, T}, {-1, -1, T}, {-1, 1, -T}, {1, 1, -T}, {1, 1, T}, {-1, 1, T},
  {-T, -1, -1}, {T, -1, -1}, {T, -1, 1}, {-T, -1, 1}, {-T, 1, -1}, {T, 1, -1}, {T, 1, 1}, {-T, 1, 1},
  {-1, -T, -1}, {1, -T, -1}, {1, -T, 1}, {-1, -T, 1}, {-1, T, -1}, {1, T, -1}, {1, T, 1}, {-1, T, 1}};
static void part(Element2D &e, int d, vec &o, const vec &x) { d == 0 ? e.partial_xi_shape_fcn(o, x) : e.partial_eta_shape_fcn(o, x); }
static void part(Element3D &e, int d, vec &o, const vec &x) { d == 0 ? e.partial_xi_shape_fcn(o, x) : d == 1 ? e.partial_eta_shape_fcn(o, x) : e.partial_mu_shape_fcn(o, x); }
static double pw(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }
template<class E, int N, int D> struct elem {
  E e; const double (*ref)[D]; int degree;
  vec at(const vec &x) { vec b(N, 777.); mat v(N, vec(D, 0.)); e.basis(b, x, v); return b; }
  vec point() { vec x(D); for (auto &c : x) c = sym_real("xi"); return x; }
  // one at its own node, zero at every other
  void nodes() { int k = sym_pick("node", 0, N - 1); vec x(ref[k], ref[k] + D); vec b = at(x); for (int i = 0; i < N; i++) sym_eq(b[i], i == k, "one-at-own-node"); }
  // every polynomial up to the degree of the element is reproduced from its nodal values; in particular the sum is one
  void complete() { vec x = point(); vec b = at(x); double s = 0; for (double c : b) s += c; sym_eq(s, 1, "partition-of-unity");
    for (int i = 0; i <= degree; i++) for (int j = 0; i + j <= degree; j++) for (int k = 0; (D > 2 || k == 0) && i + j + k <= degree; k++) { double q = 0; for (int n = 0; n < N; n++) q += b[n] * pw(ref[n][0], i) * pw(ref[n][1], j) * (D > 2 ? pw(ref[n][D - 1], k) : 1); sym_eq(q, pw(x[0], i) * pw(x[1], j) * (D > 2 ? pw(x[D - 1], k) : 1), "reproduces-polynomials"); } }
  // exact derivative of a polynomial of degree up to four from five samples
  void partials() { vec x = point(); for (int d = 0; d < D; d++) { vec p(N, 777.); part(e, d, p, x); vec f[5]; for (int k = 0; k < 5; k++) { vec y = x; y[d] += k - 2; f[k] = at(y); } double s = 0; for (int n = 0; n < N; n++) { sym_eq(12 * p[n], 8 * (f[3][n] - f[1][n]) - (f[4][n] - f[0][n]), "partial-is-derivative"); s += p[n]; } sym_eq(s, 0, "partials-sum-to-zero"); } }
  void position() { vec x = point(); mat v(N, vec(D)); for (auto &r : v) for (auto &c : r) c = sym_real("v"); vec p(D, 777.); e.physical_position(p, x, v); vec b = at(x); for (int d = 0; d < D; d++) { double s = 0; for (int n = 0; n < N; n++) s += b[n] * v[n][d]; sym_eq(p[d], s, "position"); } }
  // the vertices handed to basis do not matter, nor what was asked before, nor what the results held
  void again() { vec x = point(), y = point(); mat v(N, vec(D)), u(N, vec(D)); for (auto &r : v) for (auto &c : r) c = sym_real("v"); for (auto &r : u) for (auto &c : r) c = sym_real("u"); vec want = at(x), b(N, 5.), p(D, 3.), q(D, -4.), g(N, 9.), g0(N, 777.); E fresh; part(fresh, D - 1, g0, x); e.basis(b, y, u); e.physical_position(q, y, u); part(e, 0, g, y); e.basis(b, x, v); part(e, D - 1, g, x); e.physical_position(q, x, v); fresh.physical_position(p, x, v); for (int n = 0; n < N; n++) { sym_eq(b[n], want[n], "basis-again"); sym_eq(g[n], g0[n], "partial-again"); } for (int d = 0; d < D; d++) sym_eq(q[d], p[d], "position-again"); }
};
#define ELEM(nm, E, N, D, REF, DEG) HARNESS(nm##_nodes) { elem<E, N, D> e{E(), REF, DEG}; e.nodes(); } HARNESS(nm##_complete) { elem<E, N, D> e{E(), REF, DEG}; e.complete(); } HARNESS(nm##_partials) { elem<E, N, D> e{E(), REF, DEG}; e.partials(); } HARNESS(nm##_again) { elem<E, N, D> e{E(), REF, DEG}; e.again(); } HARNESS(nm##_position) { elem<E, N, D> e{E(), REF, DEG}; e.position(); }
ELEM(quad4, Quad_4_2D, 4, 2, Q4, 1) ELEM(quad8, Quad_8_2D, 8, 2, Q8, 2) ELEM(quad12, Quad_12_2D, 12, 2, Q12, 3)
ELEM(hex8, Hex8, 8, 3, H8, 1) ELEM(hex20, Hex20, 20, 3, H20, 2) ELEM(hex32, Hex32, 32, 3, H32, 3)
// the tesseract has no basis function call: its mapping is the product of linear functions
static void tref(int n, double *r) { for (int d = 0; d < 3; d++) r[d] = H8[n % 8][d]; r[3] = n < 8 ? -1 : 1; }
HARNESS(tess_position) { Tess16 e; vec x(4); for (auto &c : x) c = sym_real("xi"); mat v(16, vec(4)); for (auto &r : v) for (auto &c : r) c = sym_real("v"); vec p(4, 777.); e.physical_position(p, x, v);
  for (int d = 0; d < 4; d++) { double s = 0; for (int n = 0; n < 16; n++) { double r[4], w = 1; tref(n, r); for (int k = 0; k < 4; k++) w *= (1 + r[k] * x[k]) / 2; s += w * v[n][d]; } sym_eq(p[d], s, "position"); } }
HARNESS(tess_partials) { Tess16 e; vec x(4); for (auto &c : x) c = sym_real("xi"); vec p[4]; for (auto &q : p) q = vec(16, 777.); e.partial_xi_shape_fcn(p[0], x); e.partial_eta_shape_fcn(p[1], x); e.partial_mu_shape_fcn(p[2], x); e.partial_tau_shape_fcn(p[3], x);
  for (int d = 0; d < 4; d++) for (int n = 0; n < 16; n++) { double r[4], w = 1; tref(n, r); for (int k = 0; k < 4; k++) w *= k == d ? r[k] / 2 : (1 + r[k] * x[k]) / 2; sym_eq(p[d][n], w, "partial-is-derivative"); } }
